// C14: stopwatches on a simulated machine.
#define SCEN_PROP_NODE
#include "common.hpp"
#include "flut/stopwatch.hpp"
using namespace sim; using namespace scen;

const char* scen_id = "C14";
static const vector<string> names = [] {
	vector<string> n = { "a", "b", "load", "a long name of a measure", "run", "save", "x", "", "internal", "Load", "b ", "a.b", "lo", "loada" };
	for ( int i = 0; i < 50; ++i ) n.push_back( i % 2 ? "measure " + std::to_string( i ) : string( 70, 'm' ) + std::to_string( i ) );
	return n; }();

static i64 any_ns( Rng& r ) { return r.chance( 0.15 ) ? 0 : (i64)( r.next() >> ( 20 + r.below( 30 ) ) ); } // up to about 5 hours

void scen_gen( Rng& r, Plan& p, bool thorough )
{
	p.cfg[ "boot_ns" ] = r.chance( 0.5 ) ? 0 : (i64)( r.next() >> 9 );
	p.cfg[ "tick_ns" ] = r.chance( 0.5 ) ? 0 : (i64)r.below( 50000000 );
	p.cfg[ "read_jump" ] = r.chance( 0.3 ) ? (i64)r.range( 1, 6 ) : 0;
	double jump = r.chance( 0.5 ) ? r.unit() * 0.4 : 0;
	int n = (int)r.range( 3, thorough ? 120 : 50 ); int nn = (int)r.range( 1, r.chance( 0.2 ) ? names.size() : 8 );
	if ( nn > 20 ) n *= 3;
	p.add( "new", { 0 } );
	for ( int i = 0; i < n; ++i )
	{
		if ( r.chance( 0.7 ) ) p.add( "wait", { any_ns( r ) } );
		if ( r.chance( jump ) ) p.add( "jump", { r.range( -100000000000LL, 100000000000LL ) } );
		double k = r.unit(); i64 s = r.chance( 0.8 ) ? 0 : 1;
		if ( k < 0.03 ) p.add( "new", { s } );
		else if ( k < 0.06 ) p.add( "first", { s } );
		else if ( k < 0.15 ) p.add( "report", { s, r.chance( 0.5 ) ? 0 : (i64)r.below( 12 ) } );
		else p.add( "measure", { s, (i64)r.below( nn ) } );
	}
}

void scen_run( const Plan& p )
{
	struct E { string name; i64 lo = 0, hi = 0; };
	struct W { std::unique_ptr<flut::stopwatch> w; vector<E> es; i64 flo, fhi, plo, phi; int adds = 0; };
	W ws[ 2 ];
	i64 every = p.c( "read_jump" ), count = 0; Rng jr( p.seed );
	if ( every > 0 ) clk().on_read = [&]() { if ( ++count % every == 0 ) { clk().jump( jr.range( -4000000000LL, 4000000000LL ) ); note_fault( "clock:jump-during-reading" ); } };
	auto report = [&]( W& w, int decimals = 6 ) {
		int before = flut::to_str_precision();
		flut::prop_node pn = decimals == 6 ? w.w->get_report() : w.w->get_report( decimals );
		check( flut::to_str_precision() == before, "precision", "a report changed the precision of numbers elsewhere" );
		Tree t = tree_of( pn );
		check( t.kids.size() == w.es.size() + 1, "entries", "the report has " + std::to_string( t.kids.size() ) + " entries instead of " + std::to_string( w.es.size() ) + " and the overhead" );
		double sum = 0;
		for ( size_t i = 0; i < t.kids.size(); ++i )
		{
			double v = strtod( t.kids[ i ].second.value.c_str(), nullptr );
			sum += v;
			if ( i == w.es.size() ) { check( v >= -1e-6, "negative", "the overhead is negative: " + t.kids[ i ].second.value ); break; }
			auto& e = w.es[ i ];
			check( t.kids[ i ].first == e.name, "order", "entry " + std::to_string( i ) + " is " + t.kids[ i ].first + " instead of " + e.name );
			double lo = e.lo * 1e-9, hi = e.hi * 1e-9, tol = 1.5e-6 + hi * 1e-9;
			check( v >= lo - tol && v <= hi + tol, v < lo ? "too_short" : "too_long", "measure " + e.name + " is " + t.kids[ i ].second.value + " s, should be " + std::to_string( lo ) + " to " + std::to_string( hi ) );
		}
		double lo = w.adds ? ( w.plo - w.fhi ) * 1e-9 : 0, hi = w.adds ? ( w.phi - w.flo ) * 1e-9 : 0, tol = 1e-6 * ( t.kids.size() + 1 ) + hi * 1e-9;
		check( sum >= lo - tol && sum <= hi + tol, "sum", "the measures and the overhead add up to " + std::to_string( sum ) + " s, but " + std::to_string( lo ) + " to " + std::to_string( hi ) + " s passed" );
		probe( "reported" ); ev( "sum " + std::to_string( sum ) );
		state( t.hash() );
	};
	for ( auto& op : p.ops )
	{
		if ( op.kind == "wait" ) { i64 n = op.i( 0 ); clk().advance( n < 0 ? 0 : n ); nontrivial(); continue; }
		if ( op.kind == "jump" ) { clk().jump( op.i( 0 ) ); note_fault( op.i( 0 ) < 0 ? "clock:set-back" : "clock:set-forward" ); continue; }
		W& w = ws[ op.ix( 0, 2 ) ];
		i64 a = clk().mono;
		if ( op.kind == "new" ) { { CallScope c( op ); w.w.reset( new flut::stopwatch ); } w.es.clear(); w.flo = w.plo = a; w.fhi = w.phi = clk().mono; w.adds = 0; }
		else if ( !w.w ) continue;
		else if ( op.kind == "first" ) { if ( w.adds ) continue; { CallScope c( op ); w.w->start_first_measure(); } w.flo = w.plo = a; w.fhi = w.phi = clk().mono; probe( "first measure started late" ); }
		else if ( op.kind == "measure" )
		{
			string name = names[ op.ix( 1, names.size() ) ];
			{ CallScope c( op ); w.w->add_measure( name ); }
			i64 b = clk().mono;
			E* e = nullptr; for ( auto& x : w.es ) if ( x.name == name ) e = &x;
			if ( !e ) { w.es.push_back( E{ name } ); e = &w.es.back(); } else probe( "summed" );
			e->lo += std::max<i64>( 0, a - w.phi ); e->hi += b - w.plo;
			w.plo = a; w.phi = b; ++w.adds;
			ev( "measure" );
		}
		else if ( op.kind == "report" ) report( w, 6 + (int)op.ix( 1, 12 ) );
	}
	for ( auto& w : ws ) if ( w.w ) report( w );
}
