// C19: memoized functions whose evaluation fails or for which memory runs out.
#include "common.hpp"
#include <map>
#include <tuple>
#include "flut/memoize.hpp"
using namespace sim; using namespace scen;

const char* scen_id = "C19";

void scen_gen( Rng& r, Plan& p, bool thorough )
{
	double bad = r.chance( 0.25 ) ? 0 : r.unit() * 0.6, mem = r.unit();
	int n = (int)r.range( 4, thorough ? 100 : 50 ); int range = (int)r.range( 1, 12 );
	for ( int i = 0; i < n; ++i )
	{
		// call <function> <a> <b>
		double k = r.unit();
		if ( k < 0.06 && k >= 0.05 ) { p.add( "many", { (i64)r.below( 4 ), r.logrange( thorough ? 60000 : 8000 ), (i64)( r.next() >> 40 ) } ); continue; }
		if ( k < 0.05 ) { p.add( "copy", { (i64)r.below( 4 ) } ); continue; }
		auto& op = p.add( "call", { (i64)r.below( 4 ), (i64)r.below( range ), (i64)r.below( 3 ) } );
		if ( op.n[ 0 ] == 3 ) op.n[ 1 ] = r.below( 40 );
		if ( r.chance( bad ) )
		{
			if ( r.chance( mem ) ) op.f.push_back( Fault{ "alloc", r.logrange( 30 ), r.chance( 0.3 ) ? "fail+" : "fail", 0 } );
			else op.f.push_back( Fault{ "user", r.chance( 0.7 ) ? 1 : r.logrange( 20 ), "throw", (i64)r.below( 2 ) } );
		}
	}
}

static string pad( const string& s ) { return s + " and some more text so that it needs memory"; }
static string f1( int a ) { return pad( "f1 " + std::to_string( a * 7 ) ); }
static string f2( int a, const string& b ) { return pad( b + "|" + std::to_string( a ) ); }
static double f0( int a, int b ) { return a * 100.5 - b; }
struct Boom { int n; };

void scen_run( const Plan& p )
{
	std::map< string, int > evals; // successful evaluations per function and argument
	auto trouble = [&] { i64 a; if ( user_fault( &a ) ) { if ( a ) throw Boom{ 5 }; throw std::runtime_error( "the function failed" ); } };
	auto key = []( int f, int a, const string& b ) { return std::to_string( f ) + ":" + std::to_string( a ) + ":" + b; };
	std::vector< string > log; // what was evaluated in the current call
	auto count = [&]( const string& k ) { Pause pz; ++evals[ k ]; log.push_back( k ); };
	flut::memoize< double( int, int ) > m0( [&]( int a, int b ) { trouble(); count( key( 0, a, std::to_string( b ) ) ); return f0( a, b ); } );
	flut::memoize< string( int ) > m1( [&]( int a ) { trouble(); string r = f1( a ); count( key( 1, a, "" ) ); return r; } );
	flut::memoize< string( int, string ) > m2( [&]( int a, string b ) { trouble(); string r = f2( a, b ); count( key( 2, a, b ) ); return r; } );
	std::function< long long( int ) > self;
	flut::memoize< long long( int ) > m3( [&]( int a ) -> long long { trouble(); long long r = a < 2 ? a : self( a - 1 ) + self( a - 2 ); count( key( 3, a, "" ) ); return r; } );
	self = [&]( int a ) { return m3( a ); };
	std::unique_ptr< flut::memoize< string( int ) > > m1c; // a copy keeps what was remembered
	std::set< string > done;
	long long fib[ 64 ] = { 0, 1 }; for ( int i = 2; i < 64; ++i ) fib[ i ] = fib[ i - 1 ] + fib[ i - 2 ];
	for ( auto& op : p.ops )
	{
		int f = (int)op.ix( 0, 4 );
		if ( op.kind == "copy" ) { m1c.reset( new flut::memoize< string( int ) >( m1 ) ); std::swap( *m1c, m1 ); probe( "copied" ); continue; }
		if ( op.kind == "many" )
		{
			// a large number of distinct arguments, then some of them again
			i64 n = op.i( 1 ); if ( n < 1 ) n = 1; if ( n > 60000 ) n = 60000;
			log.clear();
			auto one = [&]( int a ) {
				if ( f == 0 ) return m0( a, 1 ) == f0( a, 1 );
				if ( f == 1 ) return m1( a ) == f1( a );
				if ( f == 2 ) return m2( a, "y" ) == f2( a, "y" );
				return m3( a % 60 ) == fib[ a % 60 ];
			};
			for ( i64 i = 0; i < n; ++i ) check( one( 100 + (int)i ), "wrong_value", "function " + std::to_string( f ) + " gave a wrong value for the argument " + std::to_string( 100 + i ) + " of many" );
			Rng g( op.i( 2 ) );
			for ( i64 i = 0; i < 40; ++i ) { int a = 100 + (int)( i == 0 ? 0 : i == 1 ? n - 1 : g.below( n ) ); check( one( a ), "wrong_value", "function " + std::to_string( f ) + " gave a wrong value for the remembered argument " + std::to_string( a ) + " of many" ); }
			for ( auto& e : log )
			{
				check( !done.count( e ), "evaluated_again", e + " was evaluated again although its value was known" );
				done.insert( e );
			}
			probe( "many arguments" );
			continue;
		}
		int a = (int)op.ix( 1, 50 ), b = (int)op.ix( 2, 5 ); string bs = pad( "x" + std::to_string( b ) );
		log.clear();
		bool threw = false; double d = 0; string s; long long l = 0; string what; i64 fired;
		string k = f == 0 ? key( 0, a, std::to_string( b ) ) : f == 1 ? key( 1, a, "" ) : f == 2 ? key( 2, a, bs ) : key( 3, a, "" );
		bool known = done.count( k ) != 0;
		{
			CallScope c( op );
			try
			{
				switch ( f ) { case 0: d = m0( a, b ); break; case 1: s = m1( a ); break; case 2: s = m2( a, bs ); break; default: l = m3( a ); }
			}
			catch ( Boom& e ) { threw = true; check( e.n == 5, "exception", "the exception was changed" ); what = "boom"; }
			catch ( std::bad_alloc& ) { Pause pz; threw = true; what = "memory"; }
			catch ( std::exception& e ) { Pause pz; threw = true; what = e.what(); }
			fired = c.fired();
		}
		string at = "function " + std::to_string( f ) + " of " + std::to_string( a ) + ( f == 2 || f == 0 ? ", " + std::to_string( b ) : "" );
		ev( at + ( threw ? " " + what : " ok" ) );
		check( !threw || fired, "spurious_error", at + " failed although nothing failed: " + what );
		if ( threw && fired ) probe( what == "memory" ? "memory ran out" : "the function threw" );
		std::map< string, int > now; for ( auto& e : log ) ++now[ e ];
		for ( auto& e : now )
		{
			int n = e.second;
			check( n == 1 || ( f == 3 && threw ), "evaluated_twice", at + " evaluated " + e.first + " " + std::to_string( n ) + " times in one call" );
			check( !done.count( e.first ), "evaluated_again", at + " evaluated " + e.first + " again although its value was known" );
			if ( !threw ) done.insert( e.first );
		}
		if ( threw ) continue;
		done.insert( k );
		if ( known ) probe( "remembered" ); else probe( "evaluated" );
		bool ok = f == 0 ? d == f0( a, b ) : f == 1 ? s == f1( a ) : f == 2 ? s == f2( a, bs ) : l == fib[ a ];
		check( ok, "wrong_value", at + " returned " + ( f == 0 ? std::to_string( d ) : f == 3 ? std::to_string( l ) : show( s ) ) );
		check( known || evals[ k ] > 0, "not_evaluated", at + " was never evaluated" );
		state( hash_str( done.size(), k ) );
	}
}
