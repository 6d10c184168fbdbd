// C15: profiler sections on a simulated machine, with calls from foreign threads and wall clock changes.
#define SCEN_PROP_NODE
#include "common.hpp"
#include "flut/system/profiler.hpp"
using namespace sim; using namespace scen;

const char* scen_id = "C15";
static const int nnames = 60;
static const char* literal[] = { "load", "run", "step", "save", "TOTAL", "inner_loop" };
static string texts[ 2 ][ nnames ]; // every name at two addresses, as from two source files
static const char* name_at( int n, int copy ) { return texts[ copy ][ n ].c_str(); }
static string name_of( int n ) { return texts[ 0 ][ n ]; }
static void make_names()
{
	for ( int c = 0; c < 2; ++c ) for ( int n = 0; n < nnames; ++n ) texts[ c ][ n ] = n < 6 ? literal[ n ] : n % 3 ? "section_" + std::to_string( n ) : "a section whose name is long and much like others " + std::to_string( n );
}

static i64 any_ns( Rng& r ) { return r.chance( 0.15 ) ? 0 : (i64)( r.next() >> ( 20 + r.below( 30 ) ) ); }

void scen_gen( Rng& r, Plan& p, bool thorough )
{
	p.cfg[ "boot_ns" ] = r.chance( 0.5 ) ? 0 : (i64)( r.next() >> 9 );
	p.cfg[ "tick_ns" ] = r.chance( 0.6 ) ? 0 : (i64)r.below( 5000000 );
	p.cfg[ "read_jump" ] = r.chance( 0.3 ) ? (i64)r.range( 1, 6 ) : 0;

	double jump = r.chance( 0.5 ) ? r.unit() * 0.3 : 0;
	int n = (int)r.range( 4, thorough ? 200 : 80 ), depth = 0, nn = (int)r.range( 1, r.chance( 0.15 ) ? nnames : 6 ), maxd = (int)r.range( 1, 12 );
	bool copies = r.chance( 0.4 ); double waits = nn > 6 ? 0.2 : 0.6;
	if ( nn > 6 ) { n = (int)r.range( 80, 400 ); if ( r.chance( 0.12 ) ) { n *= 4; waits = 0.05; } }
	for ( int i = 0; i < n; ++i )
	{
		if ( r.chance( waits ) ) p.add( "wait", { any_ns( r ) } );
		if ( r.chance( jump ) ) p.add( "jump", { r.range( -100000000000LL, 100000000000LL ) } );
		double k = r.unit();
		if ( k < 0.02 && depth == 0 ) p.add( "reset", { (i64)r.chance( 0.2 ) } );
		else if ( k < 0.08 ) p.add( "report" );
		else if ( k < 0.11 ) p.add( "foreign", { (i64)r.below( 3 ) } );
		else if ( depth > 0 && r.chance( depth >= maxd ? 1 : 0.45 ) ) { p.add( "end" ); --depth; }
		else { p.add( "start", { (i64)r.below( nn ), (i64)( copies && r.chance( 0.4 ) ) } ); ++depth; }
	}
}

struct Sec { int name; int parent; i64 lo = 0, hi = 0; i64 slo = 0, shi = 0; vector<int> kids; };

void scen_run( const Plan& p )
{
	make_names();
	auto& pr = flut::profiler::instance();
	vector<Sec> secs; vector<int> stack;
	i64 rlo, rhi;

	auto foreign = [&]( int what ) {
		bool refused = false;
		foreign_thread( [&] { try { if ( what == 0 ) pr.start_section( "foreign" ); else if ( what == 1 ) pr.end_section(); else pr.report(); } catch ( std::exception& ) { refused = true; } } );
		check( refused, "foreign_accepted", string( "another thread was allowed to " ) + ( what == 0 ? "start a section" : what == 1 ? "end a section" : "make a report" ) );
		probe( "foreign thread refused" ); note_fault( "thread:foreign-call" );
	};
	i64 every = p.c( "read_jump" ), count = 0; Rng jr( p.seed );
	auto hook = [&]() {

		++count;
		if ( every > 0 && count % every == 0 ) { clk().jump( jr.range( -4000000000LL, 4000000000LL ) ); note_fault( "clock:jump-during-reading" ); }
	};
	if ( every > 0 ) clk().on_read = hook;
	auto reset = [&]( bool other = false ) { i64 a = clk().mono; if ( other ) { foreign_thread( [&] { pr.reset(); } ); probe( "reset by another thread" ); } else pr.reset(); rlo = a; rhi = clk().mono; secs.clear(); secs.push_back( Sec{ 4, -1 } ); stack = { 0 }; };
	reset();
	std::function< void( const Tree&, int, double, double, double ) > verify;
	auto num = []( const string& s, size_t& pos ) { while ( pos < s.size() && !( isdigit( s[ pos ] ) || s[ pos ] == '-' ) ) ++pos; char* e; double v = strtod( s.c_str() + pos, &e ); pos = e - s.c_str(); return v; };
	verify = [&]( const Tree& t, int id, double now_lo, double now_hi, double ) {
		auto& s = secs[ id ];
		double lo = id ? s.lo : now_lo - rhi, hi = id ? s.hi : now_hi - rlo; // ns
		double rl = now_lo - rhi, rh = now_hi - rlo;
		string name = id ? name_of( s.name ) : "TOTAL";
		size_t pos = 0; double ms = num( t.value, pos );
		check( ms >= lo / 1e6 - 0.51 && ms <= hi / 1e6 + 0.51, ms < lo / 1e6 ? "too_short" : "too_long", name + " is reported as " + show( t.value ) + ", should be " + std::to_string( lo / 1e6 ) + " to " + std::to_string( hi / 1e6 ) + " ms" );
		if ( rl > 1e6 )
		{
			double rel = num( t.value, pos ), ex = num( t.value, pos );
			check( rel >= 100 * lo / rh - 0.011 && rel <= 100 * hi / rl + 0.011, "percentage", name + " is reported as " + show( t.value ) + ", share should be " + std::to_string( 100 * lo / rh ) + " to " + std::to_string( 100 * hi / rl ) );
			double klo = 0, khi = 0; for ( int k : s.kids ) klo += secs[ k ].lo, khi += secs[ k ].hi;
			double elo = 100 * ( lo - khi ) / ( lo - khi < 0 ? rl : rh ), ehi = 100 * ( hi - klo ) / ( hi - klo < 0 ? rh : rl );
			check( ex >= elo - 0.011 && ex <= ehi + 0.011, "exclusive", name + " is reported as " + show( t.value ) + ", exclusive share should be " + std::to_string( elo ) + " to " + std::to_string( ehi ) );
		}
		check( t.kids.size() == s.kids.size(), "sections", name + " has " + std::to_string( t.kids.size() ) + " sections in the report instead of " + std::to_string( s.kids.size() ) );
		std::set<int> seen; double prev_lo = 0; int prev = -1;
		for ( auto& k : t.kids )
		{
			int found = -1; for ( int c : s.kids ) if ( k.first == name_of( secs[ c ].name ) ) found = c;
			check( found >= 0 && seen.insert( found ).second, "sections", "section " + k.first + " in the report does not belong under " + name );
			if ( prev >= 0 ) check( secs[ found ].lo <= secs[ prev ].hi, "order", "section " + k.first + " is listed after a shorter one" );
			prev = found;
			verify( k.second, found, now_lo, now_hi, 0 );
		}
	};
	auto report = [&] {
		i64 a = clk().mono;
		flut::prop_node pn = pr.report();
		i64 b = clk().mono;
		Tree t = tree_of( pn );
		check( t.kids.size() == 1 && t.kids[ 0 ].first == "TOTAL", "sections", "the report does not have one root" );
		verify( t.kids[ 0 ].second, 0, (double)a, (double)b, 0 );
		ev( "report " + std::to_string( t.hash() ) ); probe( stack.size() > 1 ? "report within sections" : "report" );
		state( t.hash() );
	};
	for ( auto& op : p.ops )
	{
		if ( op.kind == "wait" ) { i64 n = op.i( 0 ); clk().advance( n < 0 ? 0 : n ); nontrivial(); }
		else if ( op.kind == "jump" ) { clk().jump( op.i( 0 ) ); note_fault( op.i( 0 ) < 0 ? "clock:set-back" : "clock:set-forward" ); }
		else if ( op.kind == "reset" ) { if ( stack.size() == 1 ) { reset( op.i( 0 ) != 0 ); probe( "reset" ); } }
		else if ( op.kind == "report" ) report();
		else if ( op.kind == "foreign" ) foreign( (int)op.ix( 0, 3 ) );
		else if ( op.kind == "start" )
		{
			if ( stack.size() > 60 ) continue;
			int n = (int)op.ix( 0, nnames ), cur = stack.back(), id = -1;
			for ( int k : secs[ cur ].kids ) if ( secs[ k ].name == n ) id = k;
			i64 a = clk().mono;
			auto* s = pr.start_section( name_at( n, (int)op.ix( 1, 2 ) ) );
			i64 b = clk().mono;
			if ( id < 0 ) { id = (int)secs.size(); secs.push_back( Sec{ n, cur } ); secs[ cur ].kids.push_back( id ); } else probe( "section passed again" );
			auto& m = secs[ id ];
			check( s && string( s->name ) == name_of( n ), "section", string( "starting " ) + name_of( n ) + " returned another section" );
			check( s->total_time >= m.lo && s->total_time <= m.hi, s->total_time < m.lo ? "too_short" : "too_long", string( name_of( n ) ) + " has a total of " + std::to_string( s->total_time ) + " ns, should be " + std::to_string( m.lo ) + " to " + std::to_string( m.hi ) );
			m.slo = a; m.shi = b;
			stack.push_back( id );
			for ( size_t i = 1; i + 1 < stack.size(); ++i ) if ( secs[ stack[ i ] ].name == n ) { probe( "recursion" ); break; }
		}
		else if ( op.kind == "end" )
		{
			if ( stack.size() < 2 ) continue;
			auto& m = secs[ stack.back() ];
			i64 a = clk().mono;
			pr.end_section();
			i64 b = clk().mono;
			m.lo += std::max<i64>( 0, a - m.shi ); m.hi += b - m.slo;
			stack.pop_back();
		}
	}
	while ( stack.size() > 1 ) { auto& m = secs[ stack.back() ]; i64 a = clk().mono; pr.end_section(); m.lo += std::max<i64>( 0, a - m.shi ); m.hi += clk().mono - m.slo; stack.pop_back(); }
	report();
}
