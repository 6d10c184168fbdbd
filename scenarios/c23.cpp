// C23: arrays, flat maps, sorted vectors and factories under failing memory and failing copies.
#include "common.hpp"
#include "flut/system/types.hpp"
#include "flut/system/assert.hpp"
#include "flut/string_tools.hpp"
#include "flut/system_tools.hpp"
#include "flut/dynarray.hpp"
#include "flut/flat_map.hpp"
#include "flut/sorted_vector.hpp"
#include "flut/factory.hpp"
using namespace sim; using namespace scen;

const char* scen_id = "C23";

void scen_gen( Rng& r, Plan& p, bool thorough )
{
	double bad = r.chance( 0.3 ) ? 0 : r.unit() * 0.5;
	p.cfg[ "items" ] = (i64)r.below( 2 );
	static const vector<string> kinds = {
		"arr_new", "arr_fill", "arr_copy", "arr_move", "arr_assign", "arr_assign", "arr_massign", "arr_self", "arr_set", "arr_all", "arr_bad",
		"map_set", "map_set", "map_get", "map_at", "map_unknown", "map_erase", "map_copy", "map_move", "map_clear", "map_own",
		"vec_insert", "vec_insert", "vec_insert", "vec_own", "vec_find", "vec_erase", "vec_copy", "vec_move", "vec_clear",
		"fac_reg", "fac_create", "fac_create", "fac_unknown", "fac_copy", "fac_try" };
	vector<double> w; string only = r.chance( 0.5 ) ? r.pick( vector<string>{ "arr", "map", "vec", "fac" } ) : "";
	for ( auto& k : kinds ) { bool rare = k == "map_clear" || k == "vec_clear"; w.push_back( only.empty() || k.substr( 0, 3 ) == only ? ( rare ? 0.1 : r.unit() ) : 0 ); }
	double sum = 0; for ( double x : w ) sum += x;
	int n = (int)r.range( 5, thorough ? 140 : 70 );
	for ( int i = 0; i < n; ++i )
	{
		double x = r.unit() * sum; size_t k = 0; while ( k + 1 < kinds.size() && x > w[ k ] ) x -= w[ k++ ];
		auto& op = p.add( kinds[ k ], { (i64)r.below( 2 ), (i64)r.below( 9 ), r.range( 0, 20 ), (i64)r.below( 100 ) } );
		if ( r.chance( bad ) )
		{
			if ( r.chance( 0.5 ) ) op.f.push_back( Fault{ "user", r.logrange( 12 ), "throw", 0 } );
			else op.f.push_back( Fault{ "alloc", r.logrange( 12 ), r.chance( 0.3 ) ? "fail+" : "fail", 0 } );
		}
	}
}

struct Item { // copying may fail, moving may not
	i64 v = 0;
	Item() {}
	Item( const Item& o ) : v( o.v ) { if ( user_fault() ) throw std::runtime_error( "copy failed" ); }
	Item( Item&& o ) noexcept : v( o.v ) { o.v = -1; }
	Item& operator=( const Item& o ) { if ( user_fault() ) throw std::runtime_error( "copy failed" ); v = o.v; return *this; }
	Item& operator=( Item&& o ) noexcept { v = o.v; if ( &o != this ) o.v = -1; return *this; }
	bool operator==( const Item& o ) const { return v == o.v; }
	bool operator<( const Item& o ) const { return v < o.v; }
};
static void mk( i64 n, string& s ) { s = string( 1, (char)( 'a' + n ) ) + ( n % 3 ? " and so much text that it needs memory of its own" : "" ); }
static void mk( i64 n, Item& i ) { i.v = n; }
static string sv( const string& s ) { return show( s.substr( 0, 3 ) ); }
static string sv( const Item& i ) { return std::to_string( i.v ); }

struct Base { virtual ~Base() {} virtual string text() const = 0; };
static void trouble() { if ( user_fault() ) throw std::runtime_error( "constructor failed" ); }
struct Alpha : Base { int a; string s; Alpha( int n, string t ) : a( n ), s( t ) { trouble(); } string text() const override { return "Alpha" + std::to_string( a ) + s; } };
struct Beta : Base { int a; string s; Beta( int n, string t ) : a( n ), s( t ) { trouble(); } string text() const override { return "Beta" + std::to_string( a ) + s; } };
namespace inner { struct Gamma : Base { int a; string s; Gamma( int n, string t ) : a( n ), s( t ) { trouble(); } string text() const override { return "Gamma" + std::to_string( a ) + s; } }; }

template< typename T > void run( const Plan& p )
{
	typedef flut::dynarray<T> Arr; typedef flut::flat_map< string, T > Map; typedef flut::sorted_vector<T> Vec; typedef flut::factory< Base, int, string > Fac;
	Arr a[ 2 ]; vector<T> ma[ 2 ];
	Map f[ 2 ]; vector< std::pair< string, T > > mf[ 2 ];
	Vec v[ 2 ]; vector<T> mv[ 2 ];
	Fac g[ 2 ]; std::map< string, int > mg[ 2 ];
	static const char* keys[] = { "one", "two", "a key which is too long for the small buffer", "four", "five and it is again a bit longer than that", "six", "", "eight", "nine" };
	static const char* fnames[] = { "A", "B", "some longer name of a class so that it needs memory", "Alpha", "Beta", "Gamma", "D", "E", "F" };
	auto find = [&]( const vector< std::pair< string, T > >& m, const string& k ) { size_t i = 0; while ( i < m.size() && m[ i ].first != k ) ++i; return i; };
	auto sorted_insert = [&]( vector<T>& m, const T& x ) { size_t i = 0; while ( i < m.size() && !( x < m[ i ] ) ) ++i; m.insert( m.begin() + i, x ); return i; };
	size_t nr = 0;
	for ( auto& op : p.ops )
	{
		size_t i = op.ix( 0, 2 ), o = 1 - i, k = op.ix( 1, 64 ); T x; mk( op.i( 2 ) % 26, x ); size_t z = op.ix( 3, 1000 );
		string at = "op " + std::to_string( nr++ ) + " " + op.kind, key = keys[ k % 9 ], fname = fnames[ k % 9 ];
		auto wa0 = ma[ 0 ], wa1 = ma[ 1 ]; auto wf0 = mf[ 0 ], wf1 = mf[ 1 ]; auto wv0 = mv[ 0 ], wv1 = mv[ 1 ]; auto wg0 = mg[ 0 ], wg1 = mg[ 1 ];
		vector<T>& A = i ? wa1 : wa0; vector<T>& AO = i ? wa0 : wa1; auto& F = i ? wf1 : wf0; auto& FO = i ? wf0 : wf1; vector<T>& V = i ? wv1 : wv0; vector<T>& VO = i ? wv0 : wv1; auto& G = i ? wg1 : wg0; auto& GO = i ? wg0 : wg1;
		bool refuse = false, partly = false; T got = T(), expect = T(); bool cmp = false; bool found = false, want_found = false, cmp_found = false; size_t idx = 0, want_idx = 0; bool cmp_idx = false;
		std::unique_ptr<Base> made; string want_text; bool cmp_made = false;
		std::function< void() > act;
		if ( op.kind == "arr_new" ) { A = vector<T>( k ); act = [&] { Arr t( k ); a[ i ] = std::move( t ); }; }
		else if ( op.kind == "arr_fill" ) { A = vector<T>( k, x ); act = [&] { Arr t( k, x ); a[ i ] = std::move( t ); }; }
		else if ( op.kind == "arr_copy" ) { AO = A; act = [&] { Arr t( a[ i ] ); a[ o ] = std::move( t ); }; }
		else if ( op.kind == "arr_move" ) { act = [&] { Arr t( std::move( a[ i ] ) ); Pause pz; check( a[ i ].size() == 0 && a[ i ].begin() == a[ i ].end(), "moved_from", at + ": the moved-from array has " + std::to_string( (i64)a[ i ].size() ) + " elements" ); a[ i ] = std::move( t ); check( t.size() == 0 && t.begin() == t.end(), "moved_from", at + ": the array moved from by assignment has " + std::to_string( (i64)t.size() ) + " elements" ); }; }
		else if ( op.kind == "arr_assign" ) { AO = A; act = [&] { a[ o ] = a[ i ]; }; }
		else if ( op.kind == "arr_massign" ) { AO = A; A.clear(); act = [&] { a[ o ] = std::move( a[ i ] ); }; }
		else if ( op.kind == "arr_self" ) { act = [&] { auto& s = a[ i ]; s = a[ i ]; }; }
		else if ( op.kind == "arr_set" ) { if ( A.empty() || !op.f.empty() ) continue; size_t n = k % A.size(); A[ n ] = x; act = [&, n] { if ( z % 2 ) a[ i ][ n ] = x; else a[ i ].at( n ) = x; }; }
		else if ( op.kind == "arr_all" ) { partly = true; if ( !op.f.empty() ) continue; for ( auto& e : A ) e = x; act = [&] { a[ i ].assign( x ); }; }
		else if ( op.kind == "arr_bad" ) { refuse = true; size_t n = A.size() + ( z % 3 ? z % 7 : 0 ); if ( z == 5 ) n = (size_t)-1; act = [&, n] { if ( z % 2 ) a[ i ].at( n ); else ( (const Arr&)a[ i ] ).at( n ); }; }
		else if ( op.kind == "map_set" )
		{
			size_t n = find( F, key ); bool isnew = n == F.size(); if ( isnew ) F.emplace_back( key, T() ); F[ n ].second = x;
			// inserting and assigning the value are two steps of the caller: the assignment moves and cannot fail
			act = [&] { T y; { Pause pz; y = x; } f[ i ][ key ] = std::move( y ); };
		}
		else if ( op.kind == "map_get" ) { size_t n = find( F, key ); if ( n < F.size() ) { cmp = true; expect = F[ n ].second; } else { F.emplace_back( key, T() ); cmp = true; } act = [&] { T& r = f[ i ][ key ]; Pause pz; got = r; }; }
		else if ( op.kind == "map_at" ) { size_t n = find( F, key ); if ( n < F.size() ) { cmp = true; expect = F[ n ].second; } else refuse = true; act = [&] { const T& r = z % 3 == 0 ? f[ i ].at( key ) : z % 3 == 1 ? ( (const Map&)f[ i ] ).at( key ) : ( (const Map&)f[ i ] )[ key ]; Pause pz; got = r; }; }
		else if ( op.kind == "map_own" ) { if ( F.empty() ) continue; size_t n = k % F.size(); cmp = true; expect = F[ n ].second; act = [&, n] { T& r = f[ i ][ ( f[ i ].begin() + n )->first ]; Pause pz; got = r; }; }
		else if ( op.kind == "map_unknown" ) { size_t n = find( F, key ); cmp_found = true; want_found = n < F.size(); cmp_idx = true; want_idx = n; act = [&] { found = f[ i ].has_key( key ); idx = z % 2 ? f[ i ].find( key ) - f[ i ].begin() : ( (const Map&)f[ i ] ).find( key ) - f[ i ].cbegin(); Pause pz; check( f[ i ].count( key ) == ( want_found ? 1u : 0u ), "count", at + ": wrong count" ); }; }
		else if ( op.kind == "map_erase" ) { size_t n = find( F, key ); if ( n == F.size() ) continue; F.erase( F.begin() + n ); act = [&] { f[ i ].erase( f[ i ].find( key ) ); }; }
		else if ( op.kind == "map_copy" ) { FO = F; act = [&] { Map t( f[ i ] ); f[ o ] = std::move( t ); }; }
		else if ( op.kind == "map_move" ) { FO = F; F.clear(); act = [&] { f[ o ] = std::move( f[ i ] ); }; }
		else if ( op.kind == "map_clear" ) { F.clear(); act = [&] { f[ i ].clear(); }; }
		else if ( op.kind == "vec_insert" ) { cmp_idx = true; want_idx = sorted_insert( V, x ); act = [&] { auto it = v[ i ].insert( x ); idx = it - v[ i ].begin(); }; }
		else if ( op.kind == "vec_own" ) { if ( V.empty() ) continue; size_t n = k % V.size(); cmp_idx = true; T e = V[ n ]; want_idx = sorted_insert( V, e ); act = [&, n] { auto it = v[ i ].insert( *( v[ i ].begin() + n ) ); idx = it - v[ i ].begin(); }; }
		else if ( op.kind == "vec_find" )
		{
			cmp_idx = true; want_idx = V.size(); for ( size_t n = 0; n < V.size(); ++n ) if ( V[ n ] == x ) { want_idx = n; break; }
			act = [&] { idx = z % 2 ? v[ i ].find( x ) - v[ i ].begin() : ( (const Vec&)v[ i ] ).find( x ) - v[ i ].cbegin(); };
		}
		else if ( op.kind == "vec_erase" ) { if ( V.empty() ) continue; size_t n = k % V.size(); V.erase( V.begin() + n ); act = [&, n] { v[ i ].erase( v[ i ].begin() + n ); }; }
		else if ( op.kind == "vec_copy" ) { VO = V; act = [&] { Vec t( v[ i ] ); v[ o ] = std::move( t ); }; }
		else if ( op.kind == "vec_move" ) { VO = V; V.clear(); act = [&] { v[ o ] = std::move( v[ i ] ); }; }
		else if ( op.kind == "vec_clear" ) { V.clear(); act = [&] { v[ i ].clear(); }; }
		else if ( op.kind == "fac_reg" )
		{
			int c = (int)( z % 3 ); bool own = z % 5 == 0; if ( own ) fname = c == 0 ? "Alpha" : c == 1 ? "Beta" : "Gamma"; G[ fname ] = c;
			act = [&, c, own] { if ( own ) { if ( c == 0 ) g[ i ].template register_class<Alpha>(); else if ( c == 1 ) g[ i ].template register_class<Beta>(); else g[ i ].template register_class<inner::Gamma>(); }
				else { if ( c == 0 ) g[ i ].template register_class<Alpha>( fname ); else if ( c == 1 ) g[ i ].template register_class<Beta>( fname ); else g[ i ].template register_class<inner::Gamma>( fname ); } };
		}
		else if ( op.kind == "fac_create" || op.kind == "fac_try" )
		{
			auto it = G.find( fname ); string arg = "an argument that needs memory " + std::to_string( z ); cmp_made = true; bool t = op.kind == "fac_try";
			if ( it == G.end() ) refuse = !t; else want_text = string( it->second == 0 ? "Alpha" : it->second == 1 ? "Beta" : "Gamma" ) + std::to_string( k ) + arg;
			act = [&, arg, t] { made = t ? g[ i ].try_create( fname, (int)k, arg ) : z % 3 == 0 ? g[ i ].create( fname, (int)k, arg ) : z % 3 == 1 ? g[ i ]( fname, (int)k, arg ) : g[ i ][ fname ]( (int)k, arg ); };
		}
		else if ( op.kind == "fac_unknown" ) { cmp_found = true; want_found = G.count( fname ) != 0; act = [&] { found = g[ i ].has_type( fname ); }; }
		else if ( op.kind == "fac_copy" ) { GO = G; act = [&] { Fac t( g[ i ] ); std::swap( g[ o ], t ); }; }
		else continue;
		bool threw = false; string what; i64 fired;
		{
			CallScope c( op );
			try { act(); }
			catch ( Violation& ) { throw; }
			catch ( std::bad_alloc& ) { Pause pz; threw = true; what = "out of memory"; }
			catch ( std::exception& e ) { Pause pz; threw = true; what = e.what(); }
			fired = c.fired();
		}
		ev( at + ( threw ? " " + what : " ok" ) );
		if ( threw && !fired ) check( refuse, "spurious_error", at + " failed although nothing is wrong: " + what );
		if ( !threw ) check( !refuse, "not_refused", at + " was accepted although it has to be refused" );
		probe( threw && fired ? string( "failed " ) + op.kind : ( threw ? "refused " : "did " ) + op.kind );
		if ( !threw )
		{
			if ( cmp ) check( got == expect, "value", at + " gave " + sv( got ) + " instead of " + sv( expect ) );
			if ( cmp_found ) check( found == want_found, "found", at + ( found ? " found something that is not there" : " did not find it" ) );
			if ( cmp_idx ) check( idx == want_idx, "index", at + " is at " + std::to_string( (i64)idx ) + " instead of " + std::to_string( want_idx ) );
			if ( cmp_made ) check( want_text.empty() ? !made : made && made->text() == want_text, "object", at + " made " + ( made ? made->text() : "nothing" ) + " instead of " + want_text );
			ma[ 0 ] = wa0; ma[ 1 ] = wa1; mf[ 0 ] = wf0; mf[ 1 ] = wf1; mv[ 0 ] = wv0; mv[ 1 ] = wv1; mg[ 0 ] = wg0; mg[ 1 ] = wg1;
		}
		if ( threw ) at += " (failed)";
		u64 h = 0;
		for ( int s = 0; s < 2; ++s )
		{
			string w = at + ": array " + std::to_string( s );
			check( a[ s ].size() == ma[ s ].size(), "array", w + " has " + std::to_string( (i64)a[ s ].size() ) + " elements instead of " + std::to_string( ma[ s ].size() ) );
			for ( size_t n = 0; n < ma[ s ].size(); ++n ) { check( a[ s ][ n ] == ma[ s ][ n ] && &a[ s ].at( n ) == &a[ s ][ n ] && a[ s ].data() + n == &a[ s ][ n ], "array", w + " element " + std::to_string( n ) + " is " + sv( a[ s ][ n ] ) + " instead of " + sv( ma[ s ][ n ] ) ); h = hash_str( h, sv( ma[ s ][ n ] ) ); }
			check( std::equal( a[ s ].begin(), a[ s ].end(), ma[ s ].begin() ) && a[ s ].cend() - a[ s ].cbegin() == (std::ptrdiff_t)ma[ s ].size(), "array", w + ": iteration is wrong" );
			w = at + ": map " + std::to_string( s );
			check( f[ s ].size() == mf[ s ].size() && f[ s ].empty() == mf[ s ].empty(), "map", w + " has " + std::to_string( f[ s ].size() ) + " entries instead of " + std::to_string( mf[ s ].size() ) );
			size_t n = 0;
			for ( auto& e : f[ s ] ) { check( e.first == mf[ s ][ n ].first && e.second == mf[ s ][ n ].second, "map", w + " entry " + std::to_string( n ) + " is " + show( e.first ) + ": " + sv( e.second ) + " instead of " + show( mf[ s ][ n ].first ) + ": " + sv( mf[ s ][ n ].second ) ); h = hash_str( h, e.first ); ++n; }
			w = at + ": sorted vector " + std::to_string( s );
			check( v[ s ].size() == mv[ s ].size() && v[ s ].empty() == mv[ s ].empty(), "sorted", w + " has " + std::to_string( v[ s ].size() ) + " elements instead of " + std::to_string( mv[ s ].size() ) );
			n = 0;
			for ( auto& e : v[ s ] ) { check( e == mv[ s ][ n ], "sorted", w + " element " + std::to_string( n ) + " is " + sv( e ) + " instead of " + sv( mv[ s ][ n ] ) ); h = hash_str( h, sv( e ) ); ++n; }
			check( g[ s ].empty() == mg[ s ].empty(), "factory", at + ": empty() of the factory is wrong" );
			for ( auto& n : fnames ) check( g[ s ].has_type( n ) == ( mg[ s ].count( n ) != 0 ), "factory", at + ": the factory " + ( mg[ s ].count( n ) ? "lost " : "has " ) + n );
		}
		state( h );
	}
	nontrivial();
}

void scen_run( const Plan& p ) { if ( p.c( "items" ) ) run< Item >( p ); else run< string >( p ); }
