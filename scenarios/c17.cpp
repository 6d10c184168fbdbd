// C17: interrupt requests and checks by interleaved threads.
#include "common.hpp"
#include "flut/interruptible.hpp"
using namespace sim; using namespace scen;

const char* scen_id = "C17";
static const int objs = 4;

void scen_gen( Rng& r, Plan& p, bool thorough )
{
	int tasks = (int)r.range( 2, thorough ? 7 : 5 );
	p.cfg[ "tasks" ] = tasks; p.cfg[ "io_seed" ] = 0;
	double req = 0.05 + r.unit() * 0.3; int no = (int)r.range( 1, objs );
	int n = (int)r.range( 5, thorough ? 80 : 40 );
	for ( int i = 0; i < n; ++i )
	{
		i64 t = r.below( tasks ), o = r.below( no );
		double k = r.unit();
		if ( k < req ) p.add( "request", { t, o, (i64)r.below( 3 ) } );
		else if ( k < req + 0.05 ) p.add( "renew", { t, o } );
		else if ( k < req + 0.15 ) p.add( "work", { t, o, r.range( 2, 12 ) } ); // poll until told to stop
		else if ( k < req + 0.2 ) p.add( "outside", { t, o, (i64)r.below( 2 ) } ); // a thread that comes and goes
		else if ( k < req + 0.23 ) p.add( "copy", { t, o } );
		else p.add( "poll", { t, o } );
	}
	p.sched = gen_sched( r, 400, 0.1 + r.unit() * 0.6, tasks );
	gen_fine( r, p, true ); if ( p.cfg.count( "fine_seed" ) ) p.cfg[ "fine_bits" ] = r.range( 0, 3 );
}

static const Op& none_op() { static const Op o; return o; }

struct Worker : flut::interruptible // as user classes derive from it
{
	mutable int asked = 0; string payload = "work";
	void interrupt() const override { ++asked; flut::interruptible::interrupt(); }
};

// objects live in places that are used again at once, as a real allocator would
struct Place { alignas( 16 ) char mem[ 256 ]; bool used = false; };
static Place g_places[ 32 ];
static_assert( sizeof( Worker ) <= 256, "place too small" );

struct Obj
{
	flut::interruptible* p = nullptr; Place* at = nullptr; bool asked = false, started = false; // asked: a request has returned
	explicit Obj( bool worker )
	{
		for ( auto& x : g_places ) if ( !x.used ) { at = &x; break; }
		if ( !at ) return;
		at->used = true; memset( at->mem, 0xa5, sizeof at->mem );
		if ( worker ) p = new ( at->mem ) Worker; else p = new ( at->mem ) flut::interruptible;
	}
	~Obj() { if ( at ) { p->~interruptible(); memset( at->mem, 0x5a, sizeof at->mem ); at->used = false; } }
};

template< typename T > static bool copy_and_poll( const T& t, std::true_type ) { T c( t ); return c.test_interrupt_flag(); }
template< typename T > static bool copy_and_poll( const T& t, std::false_type ) { return false; }

void scen_run( const Plan& p )
{
	int ntasks = (int)p.c( "tasks", 2 ); if ( ntasks < 1 ) ntasks = 1; if ( ntasks > 8 ) ntasks = 8;
	bool inside = p.c( "fine_seed" ) != 0; // tasks are preempted inside the calls
	std::shared_ptr<Obj> os[ objs ];
	for ( int i = 0; i < objs; ++i ) os[ i ] = std::make_shared<Obj>( i % 2 == 1 );
	auto poll = [&]( Obj& o, int i, const char* who ) {
		bool must = o.asked, v;
		{ CallScope c( none_op() ); v = o.p->test_interrupt_flag(); }
		bool may = o.started;
		ev( string( who ) + " polls " + std::to_string( i ) + ( v ? " true" : " false" ) );
		if ( must ) { check( v, "missed", string( who ) + " does not see the interrupt request on object " + std::to_string( i ) ); probe( "request seen" ); }
		else if ( !may ) { check( !v, "false_request", string( who ) + " sees an interrupt request on object " + std::to_string( i ) + " that nobody made" ); probe( "no request" ); }
		else if ( !must && may ) probe( v ? "request overlapping a check, seen" : "request overlapping a check, not seen" );
		return v;
	};
	auto request = [&]( Obj& o, int i ) {
		o.started = true;
		const flut::interruptible& c = *o.p; // requests are const, also through the base class
		{ CallScope s( none_op() ); c.interrupt(); }
		if ( o.asked ) probe( "requested again" );
		o.asked = true; ev( "request " + std::to_string( i ) );
	};
	vector< std::function< void() > > tasks;
	for ( int t = 0; t < ntasks; ++t ) tasks.push_back( [&, t]() {
		string who = "thread " + std::to_string( t );
		for ( auto& op : p.ops )
		{
			if ( (int)op.ix( 0, ntasks ) != t ) continue;
			int i = (int)op.ix( 1, objs );
			yield_point();
			std::shared_ptr<Obj> o = os[ i ]; // stays alive while this thread uses it
			if ( op.kind == "request" )
			{
				request( *o, i );
				if ( op.ix( 2, 3 ) == 0 ) yield_point();
				poll( *o, i, who.c_str() );
				state( mix( i * 8 + 1 ) );
			}
			else if ( op.kind == "renew" )
			{
				// the object ends (when the last thread lets go of it) and another one begins, often at the same place
				if ( o->asked ) probe( "new object after a request" );
				auto* was = o->at;
				os[ i ].reset(); o.reset(); os[ i ] = std::make_shared<Obj>( i % 2 == 1 );
				o = os[ i ]; if ( !o->p ) { os[ i ].reset(); check( false, "harness", "out of places" ); }
				if ( o->at == was ) probe( "new object at the same place" );
				poll( *o, i, who.c_str() );
			}
			else if ( op.kind == "poll" ) poll( *o, i, who.c_str() );
			else if ( op.kind == "copy" ) { copy_and_poll( *o->p, std::is_copy_constructible<flut::interruptible>() ); probe( "copied" ); poll( *o, i, who.c_str() ); }
			else if ( op.kind == "outside" )
			{
				bool ask = op.i( 2 ) != 0;
				auto f = [&] { if ( ask ) request( *o, i ); poll( *o, i, "a short-lived thread" ); };
				if ( inside ) f(); // another thread must not wait for one that is preempted
				else foreign_thread( f );
				probe( "short-lived thread" );
			}
			else if ( op.kind == "work" )
			{
				i64 steps = 0, limit = op.i( 2 ) > 50 ? 50 : op.i( 2 );
				bool told = false;
				while ( steps < limit )
				{
					bool before = o->asked;
					told = poll( *o, i, who.c_str() );
					if ( before ) { check( told, "missed", "a worker goes on after the request" ); break; }
					if ( told ) break;
					++steps; yield_point();
				}
				if ( told ) probe( steps ? "worker stopped while working" : "worker stopped at once" );
			}
			u64 h = 0; for ( auto& x : os ) h = h * 4 + ( x->asked ? 1 : 0 ) + ( x->started ? 2 : 0 ); state( mix( h * 8 + t ) );
		}
	} );
	run_tasks( p, tasks );
	for ( int i = 0; i < objs; ++i ) poll( *os[ i ], i, "the end" );
}
