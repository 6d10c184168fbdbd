// C02: the result of save_prop is truthful under open, write and close failures and full disks.
#define SCEN_PROP_NODE
#include "common.hpp"
#include "flut/prop_node_tools.hpp"
using namespace sim; using namespace scen;

const char* scen_id = "C02";
static const vector<string> files = { "/w/a.prop", "/w/b.prop", "/w/sub/c.prop", "/w/missing/d.prop", "/w/dir", "/w/ro.prop" };

void scen_gen( Rng& r, Plan& p, bool thorough )
{
	int swarm = (int)r.below( 3 );
	p.cfg[ "io_seed" ] = r.chance( 0.5 ) ? (i64)( r.next() >> 2 ) : 0;
	FaultMix m;
	m.rate = r.chance( 0.15 ) ? 0 : 0.2 + r.unit() * 0.6;
	m.open = r.chance( 0.3 ); m.write = r.chance( 0.6 ); m.close = r.chance( 0.5 ); m.cap = r.chance( 0.5 );
	int n = (int)r.range( 1, thorough ? 14 : 8 );
	for ( int i = 0; i < n; ++i )
	{
		i64 slot = r.below( 2 );
		if ( r.chance( 0.2 ) ) p.add( "clear", { slot } );
		if ( r.chance( 0.7 ) ) gen_nodes( r, p, slot, swarm, r.chance( 0.15 ) ? r.below( 300 ) : r.below( 14 ), true );
		if ( r.chance( 0.15 ) )
		{
			auto& tg = p.add( "together", { slot, (i64)r.range( 2, 3 ), (i64)r.below( 2 ) } );
			add_faults( r, tg, m );
			if ( p.sched.empty() ) { p.sched = gen_sched( r, 400, 0.1 + r.unit() * 0.6, 3 ); gen_fine( r, p ); }
		}
		auto& op = p.add( "save", { slot, r.chance( 0.85 ) ? (i64)r.below( 3 ) : (i64)r.below( 6 ), (i64)r.below( 2 ), (i64)r.chance( 0.5 ) } );
		add_faults( r, op, m );
	}
}

void scen_run( const Plan& p )
{
	vfs().mkdirs( "/w/sub" ); vfs().mkdirs( "/w/dir" );
	vfs().put( "/w/ro.prop", "old = 1\n" ); vfs().node( "/w/ro.prop" )->no_write = true;
	Tree slot[ 2 ];
	bool ro_replaced = false;
	Tree content[ 6 ]; bool known[ 6 ] = {};
	auto verify = [&]( int f, const Tree& want, const char* cls ) {
		flut::prop_node got;
		try { got = flut::load_prop( flut::path( files[ f ] ) ); }
		catch ( std::exception& e ) { fail( cls, string( "save reported success but the file cannot be loaded: " ) + e.what() + "; file " + show( vfs().data( files[ f ] ), 200 ) ); }
		Tree g = tree_of( got );
		check( g == want, cls, "save reported success but the file does not hold the tree: " + diff( want, g ) + "; file " + show( vfs().data( files[ f ] ), 200 ) );
	};
	for ( auto& op : p.ops )
	{
		Tree& tr = slot[ op.ix( 0, 2 ) ];
		if ( op.kind == "clear" ) tr = Tree();
		else if ( op.kind == "node" ) apply_node( tr, op );
		else if ( op.kind == "together" )
		{
			// several tasks save at the same time; only the first one meets faults
			size_t n = op.ix( 1, 4 ); if ( n < 2 ) n = 2; if ( n > 3 ) n = 3;
			vector< std::function< void() > > tasks; bool ok[ 3 ] = {}, failed[ 3 ] = {}; i64 fired[ 3 ] = {};
			std::vector<Fault> mine; for ( auto& f : op.f ) if ( f.call != "cap" ) mine.push_back( f ); // a full disk would hit all
			for ( size_t t = 0; t < n; ++t ) tasks.push_back( [&, t] {
				flut::prop_node pn = prop_of( slot[ t % 2 ] ); flut::path fn( files[ t ] );
				std::vector<Fault> none;
				CallScope c( t ? none : mine );
				try { ok[ t ] = flut::save_prop( pn, fn, op.i( 2 ) != 0 ); }
				catch ( std::bad_alloc& ) { Pause pz; failed[ t ] = true; }
				fired[ t ] = c.fired();
			} );
			for ( int t = 0; t < (int)n; ++t ) known[ t ] = false;
			run_tasks( p, tasks );
			for ( int t = 0; t < (int)n; ++t )
			{
				if ( ok[ t ] ) { verify( t, slot[ t % 2 ], "success_incomplete" ); content[ t ] = slot[ t % 2 ]; known[ t ] = true; }
				else check( t == 0 && fired[ 0 ] > 0, "spurious_failure", "save reported failure although nothing failed (several tasks saving)" );
			}
			probe( "saves by several tasks" );
			check( vfs().open_files() == 0, "descriptor_leak", "save left a file open" );
			state( vfs().hash() );
		}
		else if ( op.kind == "save" )
		{
			int f = (int)op.ix( 1, 6 );
			bool possible = f < 3;
			flut::prop_node pn = prop_of( tr );
			flut::path fn( files[ f ] );
			bool ok = false; bool threw = false; i64 fired = 0, afired = 0; string what;
			{
				CallScope c( op );
				try { ok = flut::save_prop( pn, fn, op.i( 2 ) != 0 ); }
				catch ( std::exception& e ) { Pause pz; threw = true; what = e.what(); }
				fired = c.fired(); afired = c.fired( c_alloc );
			}
			ev( string( "save " ) + ( threw ? "threw" : ok ? "true" : "false" ) );
			check( !threw || afired > 0, "exception", "save_prop threw instead of returning a result: " + what );
			if ( fired ) { probe( ok && !threw ? "fault but save succeeded" : "fault reported" ); known[ f ] = false; }
			if ( !possible )
			{
				if ( !threw && ok ) verify( f, tr, "impossible_save" ); // only if the tree got there all the same
				probe( "impossible target" );
				if ( f == 5 && !threw && ok ) ro_replaced = true;
				if ( !ro_replaced ) check( vfs().data( "/w/ro.prop" ) == "old = 1\n", "other_file_damaged", "a write-protected file changed although saving to it failed" );
				continue;
			}
			if ( !threw && ok ) { verify( f, tr, "success_incomplete" ); content[ f ] = tr; known[ f ] = true; }
			else
			{
				check( fired > 0, "spurious_failure", "save reported failure although nothing failed" );
				known[ f ] = false;
				// faults stop: repeating the save must work
				if ( op.i( 3 ) )
				{
					check( flut::save_prop( pn, fn, op.i( 2 ) != 0 ), "retry_failed", "a save repeated after the fault was gone reported failure" );
					verify( f, tr, "retry_incomplete" );
					content[ f ] = tr; known[ f ] = true; probe( "retry after fault" );
				}
			}
			for ( int o = 0; o < 3; ++o )
				if ( o != f && known[ o ] ) verify( o, content[ o ], "other_file_damaged" );
			if ( !ro_replaced ) check( vfs().data( "/w/ro.prop" ) == "old = 1\n", "other_file_damaged", "a write-protected file changed" );
			check( vfs().open_files() == 0, "descriptor_leak", "save left a file open" );
			state( vfs().hash() );
		}
	}
}
