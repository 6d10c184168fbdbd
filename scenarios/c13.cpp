// C13: timers on a simulated machine: time advances, the wall clock is set, readings take time.
#include "common.hpp"
#include "flut/timer.hpp"
using namespace sim; using namespace scen;

const char* scen_id = "C13";
static const int slots = 4;

static i64 any_ns( Rng& r ) // from nothing to about a year
{
	if ( r.chance( 0.1 ) ) return 0;
	static const vector<i64> special = { 1, 999, 1000, 1001, 999999, 1000000, 999999999, 1000000000, 1000000001, 59999999999LL, 60000000000LL, 3600000000000LL, 2147483647000000LL, 2147483648LL, 4294967296LL, 4294967296000LL, 4294967296000000LL };
	if ( r.chance( 0.2 ) ) return r.pick( special );
	return (i64)( r.next() >> ( 8 + r.below( 55 ) ) ) % 31536000000000000LL;
}

void scen_gen( Rng& r, Plan& p, bool thorough )
{
	p.cfg[ "boot_ns" ] = r.chance( 0.5 ) ? 0 : any_ns( r ) * 3;
	p.cfg[ "tick_ns" ] = r.chance( 0.6 ) ? 0 : any_ns( r ) % 10000000;
	p.cfg[ "epoch_ns" ] = r.chance( 0.5 ) ? 1500000000000000000LL : (i64)( r.next() >> 3 ) % 4000000000000000000LL;
	double jump = r.chance( 0.7 ) ? r.unit() * 0.4 : 0;
	p.cfg[ "read_jump" ] = r.chance( 0.3 ) ? (i64)r.range( 1, 6 ) : 0; // every n-th clock reading the wall clock is set
	int n = (int)r.range( 4, thorough ? 100 : 50 );
	for ( int i = 0; i < n; ++i )
	{
		i64 s = r.below( slots );
		double k = r.unit();
		if ( r.chance( jump ) ) p.add( "jump", { r.chance( 0.5 ) ? any_ns( r ) : -any_ns( r ) } );
		if ( k < 0.1 || i == 0 ) p.add( "new", { s } );
		else if ( k < 0.15 ) p.add( "copy", { s, (i64)r.below( slots ) } );
		else if ( k < 0.25 ) p.add( "reset", { s } );
		else if ( k < 0.5 ) p.add( "wait", { any_ns( r ) } );
		else p.add( "read", { s, (i64)r.below( 7 ) } );
	}
}

void scen_run( const Plan& p )
{
	struct T { std::unique_ptr<flut::timer> t; i64 lo = 0, hi = 0; double last[ 7 ] = {}; }; // started between lo and hi
	T ts[ slots ];
	i64 every = p.c( "read_jump" ), count = 0; Rng jr( p.seed );
	if ( every > 0 ) clk().on_read = [&]() { if ( ++count % every == 0 ) { clk().jump( jr.range( -4000000000LL, 4000000000LL ) ); note_fault( "clock:jump-during-reading" ); } };
	auto started = [&]( T& t, i64 a ) { t.lo = a; t.hi = clk().mono; for ( auto& l : t.last ) l = 0; };
	static const char* unit[] = { "nanoseconds", "microseconds", "milliseconds", "seconds", "minutes", "hours", "ticks" };
	static const double per[] = { 1, 1e3, 1e6, 1e9, 60e9, 3600e9, 1 };
	for ( auto& op : p.ops )
	{
		if ( op.kind == "wait" ) { i64 n = op.i( 0 ); clk().advance( n < 0 ? 0 : n ); nontrivial(); continue; }
		if ( op.kind == "jump" ) { clk().jump( op.i( 0 ) ); note_fault( op.i( 0 ) < 0 ? "clock:set-back" : "clock:set-forward" ); continue; }
		T& t = ts[ op.ix( 0, slots ) ];
		i64 a = clk().mono;
		if ( op.kind == "new" ) { { CallScope c( op ); t.t.reset( new flut::timer ); } started( t, a ); }
		else if ( op.kind == "copy" ) { T& o = ts[ op.ix( 1, slots ) ]; if ( o.t && &o != &t ) { t.t.reset( new flut::timer( *o.t ) ); t.lo = o.lo; t.hi = o.hi; for ( int i = 0; i < 7; ++i ) t.last[ i ] = o.last[ i ]; } }
		else if ( !t.t ) continue;
		else if ( op.kind == "reset" ) { { CallScope c( op ); t.t->reset(); } started( t, a ); }
		else if ( op.kind == "read" )
		{
			int u = (int)op.ix( 1, 7 ); double v = 0; i64 iv = 0; double scale = per[ u ];
			{
				CallScope c( op );
				switch ( u )
				{
				case 0: iv = t.t->nanoseconds(); break;
				case 1: iv = t.t->microseconds(); break;
				case 2: iv = t.t->milliseconds(); break;
				case 3: v = t.t->seconds(); break;
				case 4: v = t.t->minutes(); break;
				case 5: v = t.t->hours(); break;
				default: iv = t.t->ticks(); scale = 1e9 * flut::timer::timer_t::period::num / flut::timer::timer_t::period::den;
				}
			}
			bool whole = u < 3 || u == 6; if ( whole ) v = (double)iv;
			double lo = ( a - t.hi ) / scale, hi = ( clk().mono - t.lo ) / scale;
			double tol = ( u == 3 || u == 4 || u == 5 ? 0 : 1 ) + hi * 1e-14 + 1e-9 / scale; // integer units are cut off
			string at = string( unit[ u ] ) + " is " + std::to_string( v ) + ", should be " + std::to_string( lo ) + ( hi > lo ? " to " + std::to_string( hi ) : "" );
			ev( at );
			check( v >= 0, "negative", at );
			check( v >= lo - tol && v <= hi + tol - ( tol >= 1 ? 0.999999 : 0 ), v < lo - tol ? "too_short" : "too_long", at );
			if ( whole && scale >= 1 ) // exactly, without going through floating point
			{
				i64 sc = (i64)scale;
				check( iv >= ( a - t.hi ) / sc - ( sc > 1 ) && iv <= ( clk().mono - t.lo ) / sc, iv < ( a - t.hi ) / sc ? "too_short" : "too_long", at + " (" + std::to_string( iv ) + " instead of " + std::to_string( ( a - t.hi ) / sc ) + " to " + std::to_string( ( clk().mono - t.lo ) / sc ) + ")" );
			}
			check( v >= t.last[ u ], "decreasing", at + ", was " + std::to_string( t.last[ u ] ) + " before" );
			t.last[ u ] = v;
			state( hash_bytes( u, &v, sizeof v ) );
			probe( string( "read in " ) + unit[ u ] );
			if ( hi * scale > 2147483648e6 ) probe( "more than 2^31 ms" );
		}
	}
}
