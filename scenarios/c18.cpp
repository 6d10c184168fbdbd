// C18: random number generators drawn from by interleaved tasks, compared with drawing alone.
#include "common.hpp"
#include <mutex>
#include "flut/math/random.hpp"
using namespace sim; using namespace scen;

const char* scen_id = "C18";
static const int gens = 4; // 0 is the global one
typedef flut::math::random_number_generator Gen;

void scen_gen( Rng& r, Plan& p, bool thorough )
{
	int tasks = (int)r.range( 1, thorough ? 5 : 4 );
	p.cfg[ "tasks" ] = tasks; p.cfg[ "tick_ns" ] = 1000;
	static const vector<i64> special = { 0, 1, 2, 123, 2147483646, 2147483647, 4294967295LL, 65536 };
	auto seed = [&] { return r.chance( 0.3 ) ? r.pick( special ) : r.chance( 0.5 ) ? r.range( 1, 20 ) : (i64)( r.next() >> 32 ); };
	for ( int g = 0; g < gens; ++g ) p.add( "make", { 0, g, seed() } );
	int n = (int)r.range( 4, thorough ? 120 : 60 );
	for ( int i = 0; i < n; ++i )
	{
		i64 t = r.below( tasks ), g = r.below( gens ); double k = r.unit();
		if ( k < 0.08 ) p.add( "seed", { t, g, seed() } );
		else if ( k < 0.12 ) p.add( "make", { t, g, seed() } );
		else if ( k < 0.14 ) p.add( "wait", { t, (i64)( r.next() >> 20 ) } );
		else if ( k < 0.15 ) p.add( "stat", { t, g, (i64)r.below( 2 ), r.range( -50, 50 ), r.range( 1, 40 ) } );
		else if ( k < 0.18 ) p.add( "differ", { t, r.range( 1, 2147483646 ), r.range( 1, 2147483646 ) } );
		else p.add( "draw", { t, g, (i64)r.below( 6 ), r.chance( 0.3 ) ? 0 : r.range( -1000000, 1000000 ), r.chance( 0.3 ) ? 1 : r.logrange( 1000000 ), r.chance( 0.7 ) ? 0 : r.range( -8, 12 ), r.chance( 0.95 ) ? 1 : r.logrange( 4000 ) } );
	}
	if ( tasks > 1 ) { p.sched = gen_sched( r, 300, 0.1 + r.unit() * 0.6, tasks ); gen_fine( r, p ); }
}

struct Draw { int way; double a, b; };
static double draw( Gen& g, const Draw& d, bool global )
{
	switch ( d.way )
	{
	case 0: return global ? flut::rand_uni<double>( d.a, d.a + d.b ) : g.uni<double>( d.a, d.a + d.b );
	case 1: return global ? flut::rand_uni<float>( (float)d.a, (float)( d.a + d.b ) ) : g.uni<float>( (float)d.a, (float)( d.a + d.b ) );
	case 2: return global ? flut::rand_norm<double>( d.a, d.b ) : g.norm<double>( d.a, d.b );
	case 3: return global ? flut::rand_norm<float>( (float)d.a, (float)d.b ) : g.norm<float>( (float)d.a, (float)d.b );
	case 4: return g.uni<double>();
	default: return g.uni<float>();
	}
}

void scen_run( const Plan& p )
{
	int ntasks = (int)p.c( "tasks", 1 ); if ( ntasks < 1 ) ntasks = 1; if ( ntasks > 8 ) ntasks = 8;
	struct G { std::mutex lock; std::unique_ptr<Gen> own; unsigned seed = 1; vector<Draw> calls; vector<double> got; bool ready = false; };
	G gs[ gens ];
	auto gen = [&]( int i ) -> Gen& { return i ? *gs[ i ].own : Gen::global_instance(); };
	// the same seed and calls on a generator of its own, with nothing in between
	auto verify = [&]( int i ) {
		G& g = gs[ i ]; if ( g.calls.empty() ) return;
		Gen alone( g.seed );
		for ( size_t k = 0; k < g.calls.size(); ++k )
		{
			double v = draw( alone, g.calls[ k ], false );
			check( memcmp( &v, &g.got[ k ], sizeof v ) == 0, "not_reproducible", ( i ? "generator " + std::to_string( i ) : string( "the global generator" ) ) + " with seed " + std::to_string( g.seed ) + " gave " + std::to_string( g.got[ k ] ) + " as value " + std::to_string( k ) + ", alone it is " + std::to_string( v ) );
		}
		probe( "sequence compared" ); state( hash_bytes( g.seed, g.got.data(), g.got.size() * sizeof( double ) ) );
		g.calls.clear(); g.got.clear();
	};
	for ( int i = 0; i < gens; ++i ) { gs[ i ].own.reset( new Gen( 7 ) ); gs[ i ].seed = 7; } Gen::global_instance().seed( 7 );
	vector< std::function< void() > > tasks;
	for ( int t = 0; t < ntasks; ++t ) tasks.push_back( [&, t]() {
		for ( auto& op : p.ops )
		{
			if ( (int)op.ix( 0, ntasks ) != t ) continue;
			yield_point();
			if ( op.kind == "wait" ) { i64 n = op.i( 1 ); clk().advance( n > 0 ? n : 0 ); clk().jump( n / 2 ); continue; }
			if ( op.kind == "differ" )
			{
				unsigned a = (unsigned)( 1 + op.ix( 1, 2147483646 ) ), b = (unsigned)( 1 + op.ix( 2, 2147483646 ) ); if ( a == b ) continue;
				Gen x( a ), y( b ); bool same = true;
				for ( int k = 0; k < 8; ++k ) if ( x.uni<double>() != y.uni<double>() ) same = false;
				check( !same, "same_sequence", "seeds " + std::to_string( a ) + " and " + std::to_string( b ) + " give the same values" );
				probe( "different seeds compared" ); continue;
			}
			int i = (int)op.ix( 1, gens ); G& g = gs[ i ];
			std::lock_guard<std::mutex> lock( g.lock ); // tasks that share a generator take turns, as its users must
			if ( op.kind == "make" || op.kind == "seed" )
			{
				verify( i );
				g.seed = (unsigned)op.i( 2 );
				if ( op.kind == "make" && i ) g.own.reset( new Gen( g.seed ) ); else gen( i ).seed( g.seed );
				if ( op.kind == "seed" ) probe( "reseeded" );
				ev( "seed " + std::to_string( g.seed ) );
			}
			else if ( op.kind == "draw" )
			{
				Draw d{ (int)op.ix( 2, 6 ), (double)op.i( 3 ) / 10, (double)( 1 + op.ix( 4, 1000000 ) ) / 10 };
				i64 e = op.i( 5 ); if ( e < -8 ) e = -8; if ( e > 12 ) e = 12; d.a *= std::pow( 10.0, (double)e ); d.b *= std::pow( 10.0, (double)e );
				i64 times = op.i( 6 ) < 1 ? 1 : op.i( 6 ) > 4000 ? 4000 : op.i( 6 ); if ( times > 500 ) probe( "long sequence" );
				for ( i64 k = 0; k < times; ++k ) {
				double v = draw( gen( i ), d, i == 0 );
				g.calls.push_back( d ); g.got.push_back( v );
				ev( "draw " + std::to_string( i ) + " " + std::to_string( v ) );
				check( v == v, "nan", "a drawn value is not a number" );
				double lo = d.way >= 4 ? 0 : d.a, hi = d.way >= 4 ? 1 : d.a + d.b; if ( d.way == 1 ) { lo = (float)lo; hi = (float)hi; }
				if ( d.way != 2 && d.way != 3 ) check( v >= lo && v <= hi, "out_of_range", "uniform value " + std::to_string( v ) + " is not within " + std::to_string( lo ) + " to " + std::to_string( hi ) );
				else check( std::abs( v - d.a ) <= 12 * d.b + ( d.way == 3 ? std::abs( d.a ) * 1e-6 : 1e-12 * std::abs( d.a ) ), "far_from_mean", "normal value " + std::to_string( v ) + " is more than 12 deviations from the mean" ); // (single precision: of numbers far from 0)
				}
				probe( i ? "own generator" : "global generator" );
			}
			else if ( op.kind == "stat" )
			{
				// distribution of many values, on a generator of its own seeded from the history
				const int N = 1500; double m = (double)op.i( 3 ), s = (double)( 1 + op.ix( 4, 100 ) ), sum = 0, sq = 0; int below = 0;
				Gen q( g.seed ); bool nrm = op.i( 2 ) != 0;
				for ( int k = 0; k < N; ++k ) { double v = nrm ? q.norm<double>( m, s ) : q.uni<double>( m, m + s ); sum += v; sq += ( v - m ) * ( v - m ); if ( v < ( nrm ? m : m + s / 4 ) ) ++below; }
				double dev = nrm ? s : s / std::sqrt( 12.0 ), mean = nrm ? m : m + s / 2, err = std::abs( sum / N - mean ) / ( dev / std::sqrt( (double)N ) );
				check( err < 7, "mean", string( nrm ? "normal" : "uniform" ) + " values have the mean " + std::to_string( sum / N ) + " instead of " + std::to_string( mean ) );
				double var = sq / N, want = nrm ? s * s : s * s / 3;
				check( var > 0.75 * want && var < 1.3 * want, "deviation", string( nrm ? "normal" : "uniform" ) + " values have a second moment of " + std::to_string( var ) + " instead of " + std::to_string( want ) );
				double frac = nrm ? 0.5 : 0.25; check( std::abs( below / (double)N - frac ) < 0.09, "shape", "the share of low values is " + std::to_string( below / (double)N ) );
				probe( "distribution checked" );
			}
		}
	} );
	run_tasks( p, tasks );
	for ( int i = 0; i < gens; ++i ) verify( i );
}
