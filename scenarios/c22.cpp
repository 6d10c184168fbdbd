// C22: circular deque against a reference deque under failing memory and failing element copies.
#include "common.hpp"
#include "flut/system/types.hpp"
#include "flut/circular_deque.hpp"
#include <deque>
using namespace sim; using namespace scen;

const char* scen_id = "C22";

void scen_gen( Rng& r, Plan& p, bool thorough )
{
	double bad = r.chance( 0.3 ) ? 0 : r.unit() * 0.4;
	p.cfg[ "items" ] = (i64)r.below( 3 );
	static const vector<string> kinds = { "push_back", "push_back", "push_front", "push_front", "pop_back", "pop_front", "clear", "reserve", "copy", "fresh", "set", "self_back", "self_front", "empty_ends" };
	vector<double> w; for ( auto& k : kinds ) w.push_back( k == "fresh" || k == "clear" ? 0.05 : k == "copy" ? 0.1 : r.chance( 0.15 ) ? 0.02 : r.unit() );
	double sum = 0; for ( double x : w ) sum += x;
	int n = (int)r.range( 5, thorough ? 200 : 90 ); i64 big = r.chance( 0.3 ) ? 40 : 7; bool huge = r.chance( 0.04 ); if ( huge ) { big = 600; n /= 3; }
	if ( r.chance( 0.6 ) ) p.add( "fresh", { (i64)r.below( big ) } );
	for ( int i = 0; i < n; ++i )
	{
		double x = r.unit() * sum; size_t k = 0; while ( k + 1 < kinds.size() && x > w[ k ] ) x -= w[ k++ ];
		if ( huge && r.chance( 0.15 ) ) { p.add( r.chance( 0.6 ) ? "push_many" : "pop_many", { r.logrange( 600 ), r.range( 0, 999 ) } ); continue; }
		auto& op = p.add( kinds[ k ], { (i64)r.below( big ), r.range( 0, 999 ) } );
		if ( r.chance( bad ) )
		{
			if ( p.cfg[ "items" ] == 2 && r.chance( 0.7 ) ) op.f.push_back( Fault{ "user", r.logrange( 8 ), "throw", 0 } );
			else op.f.push_back( Fault{ "alloc", r.logrange( 6 ), r.chance( 0.3 ) ? "fail+" : "fail", 0 } );
		}
	}
}

struct Item { // copying may fail, moving may not
	i64 v = 0;
	Item() {}
	explicit Item( i64 n ) : v( n ) {}
	Item( const Item& o ) : v( o.v ) { if ( user_fault() ) throw std::runtime_error( "copy failed" ); }
	Item( Item&& o ) noexcept : v( o.v ) { o.v = -1; }
	Item& operator=( const Item& o ) { if ( user_fault() ) throw std::runtime_error( "copy failed" ); v = o.v; return *this; }
	Item& operator=( Item&& o ) noexcept { v = o.v; if ( &o != this ) o.v = -1; return *this; }
	bool operator==( const Item& o ) const { return v == o.v; }
};
static void mk( i64 n, string& s ) { s = std::to_string( n ) + ( n % 3 ? " and so much text that it needs memory of its own" : "" ); }
static void mk( i64 n, i64& i ) { i = n; }
static void mk( i64 n, Item& i ) { i.v = n; }
static string sv( const string& s ) { return s.substr( 0, 8 ); }
static string sv( i64 i ) { return std::to_string( i ); }
static string sv( const Item& i ) { return std::to_string( i.v ); }

template< typename T > void compare( flut::circular_deque<T>& d, const std::deque<T>& m, const string& at )
{
	const flut::circular_deque<T>& c = d;
	check( d.size() == m.size(), "size", at + ": size is " + std::to_string( d.size() ) + " instead of " + std::to_string( m.size() ) );
	check( d.empty() == m.empty(), "empty", at + ": empty() is wrong" );
	check( d.full() == ( d.size() == d.capacity() ) && d.capacity() >= m.size(), "capacity", at + ": the capacity is wrong" );
	auto list = [&] { string s; for ( size_t i = 0; i < m.size(); ++i ) s += " " + sv( d[ i ] ) + "/" + sv( m[ i ] ); return s; };
	for ( size_t i = 0; i < m.size(); ++i ) check( d[ i ] == m[ i ] && c[ i ] == m[ i ], "content", at + ": element " + std::to_string( i ) + " is " + sv( d[ i ] ) + " instead of " + sv( m[ i ] ) + " (is/should be:" + list() + ")" );
	if ( !m.empty() )
	{
		check( d.front() == m.front() && c.front() == m.front(), "front", at + ": front is " + sv( d.front() ) + " instead of " + sv( m.front() ) );
		check( d.back() == m.back() && c.back() == m.back(), "back", at + ": back is " + sv( d.back() ) + " and " + sv( c.back() ) + " (const) instead of " + sv( m.back() ) );
	}
	size_t n = 0;
	for ( auto it = d.begin(); it != d.end(); ++it ) { check( n < m.size() && *it == m[ n ], "iteration", at + ": iteration gives a wrong element " + std::to_string( n ) ); ++n; }
	check( n == m.size(), "iteration", at + ": iteration gives " + std::to_string( n ) + " of " + std::to_string( m.size() ) + " elements" );
	n = 0;
	for ( auto it = c.begin(); it != c.end(); it++ ) { check( n < m.size() && *it == m[ n ] && &*it == it.operator->(), "iteration", at + ": const iteration gives a wrong element " + std::to_string( n ) ); ++n; }
	check( n == m.size() && d.end() - d.begin() == (std::ptrdiff_t)n, "iteration", at + ": const iteration gives " + std::to_string( n ) + " of " + std::to_string( m.size() ) + " elements" );
	if ( m.size() > 1 ) check( *( d.begin() + 1 ) == m[ 1 ] && *( d.end() - 1 ) == m.back(), "iteration", at + ": iterator arithmetic is wrong" );
}

template< typename T > void run( const Plan& p )
{
	typedef flut::circular_deque<T> Q;
	std::unique_ptr<Q> d( new Q ); std::deque<T> m; size_t n = 0;
	for ( auto& op : p.ops )
	{
		size_t k = op.ix( 0, 1024 ); T v; mk( op.i( 1 ), v ); string at = "op " + std::to_string( n++ ) + " " + op.kind;
		std::deque<T> want = m; bool refuse = false; std::unique_ptr<Q> other; std::function< void() > act;
		if ( op.kind == "push_back" ) { want.push_back( v ); act = [&] { d->push_back( v ); }; }
		else if ( op.kind == "push_front" ) { want.push_front( v ); act = [&] { d->push_front( v ); }; }
		else if ( op.kind == "self_back" ) { if ( m.empty() ) continue; want.push_back( m[ k % m.size() ] ); act = [&] { d->push_back( ( *d )[ k % m.size() ] ); }; }
		else if ( op.kind == "self_front" ) { if ( m.empty() ) continue; want.push_front( m[ k % m.size() ] ); act = [&] { d->push_front( ( *d )[ k % m.size() ] ); }; }
		else if ( op.kind == "pop_back" ) { if ( m.empty() ) refuse = true; else want.pop_back(); act = [&] { d->pop_back(); }; }
		else if ( op.kind == "pop_front" ) { if ( m.empty() ) refuse = true; else want.pop_front(); act = [&] { d->pop_front(); }; }
		else if ( op.kind == "push_many" ) // at one end, or at both in turn
		{
			i64 b = op.i( 1 ) % 3; vector<T> vs( k ); for ( size_t i = 0; i < k; ++i ) { mk( op.i( 1 ) + (i64)i, vs[ i ] ); if ( b == 0 || ( b == 2 && i % 2 ) ) want.push_front( vs[ i ] ); else want.push_back( vs[ i ] ); }
			act = [&, b, vs] { for ( size_t i = 0; i < k; ++i ) if ( b == 0 || ( b == 2 && i % 2 ) ) d->push_front( vs[ i ] ); else d->push_back( vs[ i ] ); };
		}
		else if ( op.kind == "pop_many" ) // each popped one is seen before
		{
			bool b = op.i( 1 ) % 2; size_t c = std::min( k, m.size() ); for ( size_t i = 0; i < c; ++i ) if ( b ) want.pop_front(); else want.pop_back();
			act = [&, b, c] { for ( size_t i = 0; i < c; ++i ) if ( b ) { { Pause pz; check( d->front() == m[ i ], "front", at + ": a wrong element is at the front" ); } d->pop_front(); } else { { Pause pz; check( d->back() == m[ m.size() - 1 - i ], "back", at + ": a wrong element is at the back" ); } d->pop_back(); } };
		}
		else if ( op.kind == "clear" ) { want.clear(); act = [&] { d->clear(); }; }
		else if ( op.kind == "reserve" ) act = [&] { d->reserve( k ); };
		else if ( op.kind == "set" ) { if ( m.empty() || !op.f.empty() ) continue; want[ k % m.size() ] = v; act = [&] { ( *d )[ k % m.size() ] = v; }; }
		else if ( op.kind == "empty_ends" ) { if ( !m.empty() ) continue; refuse = true; act = [&] { if ( k % 4 == 0 ) d->front(); else if ( k % 4 == 1 ) d->back(); else if ( k % 4 == 2 ) ( (const Q&)*d ).front(); else ( (const Q&)*d ).back(); }; }
		else if ( op.kind == "copy" ) act = [&] { if ( k % 2 ) other.reset( new Q( *d ) ); else { other.reset( new Q( k ) ); *other = *d; } };
		else if ( op.kind == "fresh" ) { want.clear(); act = [&] { other.reset( new Q( k ) ); }; }
		else continue;
		bool threw = false; string what; i64 fired; size_t cap = d->capacity();
		{
			CallScope c( op );
			try { act(); }
			catch ( std::bad_alloc& ) { Pause pz; threw = true; what = "out of memory"; }
			catch ( std::exception& e ) { Pause pz; threw = true; what = e.what(); }
			fired = c.fired();
		}
		ev( at + ( threw ? " " + what : " ok" ) );
		if ( threw && !fired ) check( refuse, "spurious_error", at + " failed although nothing is wrong: " + what );
		if ( !threw ) check( !refuse, "not_refused", at + " was accepted although the deque is empty" );
		probe( threw && fired ? string( "failed " ) + op.kind : ( threw ? "refused " : "did " ) + op.kind );
		if ( !threw )
		{
			m = want;
			if ( op.kind == "reserve" ) check( d->capacity() >= k, "capacity", at + " left less capacity than asked for" );
			if ( op.kind.substr( 0, 4 ) == "push" && d->capacity() > cap ) probe( "grew by a push" );
			if ( op.kind == "copy" )
			{
				compare( *other, m, at + " (the copy)" );
				if ( !m.empty() ) { T keep = d->front(); mk( 4321, d->front() ); compare( *other, m, at + " (the copy after a change of the original)" ); d->front() = keep; }
				if ( k % 3 == 0 ) d = std::move( other );
			}
			if ( op.kind == "fresh" ) { d = std::move( other ); check( d->capacity() >= k, "capacity", "a new deque has less capacity than asked for" ); }
		}
		compare( *d, m, at + ( threw ? " (failed)" : "" ) );
		u64 h = m.size() * 100 + d->capacity(); for ( auto& e : m ) h = hash_str( h, sv( e ) );
		state( h );
	}
	nontrivial();
}

void scen_run( const Plan& p )
{
	switch ( p.c( "items" ) ) { case 0: return run< string >( p ); case 1: return run< i64 >( p ); default: return run< Item >( p ); }
}
