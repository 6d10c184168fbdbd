// Shared by the scenarios: reference tree, conversion through flut's public API, generators.
#pragma once
#include "sim.hpp"
#include <string>
#include <vector>

namespace scen
{
	using sim::i64; using sim::u64; using sim::Rng; using sim::Op; using sim::Plan;
	using std::string; using std::vector;

	/// files must not stay open; what running out of memory leaves open is not judged
	inline void no_leak( i64 memory_faults, const string& what )
	{
		static size_t excused = 0; size_t n = sim::vfs().open_files();
		if ( memory_faults ) excused = n; else sim::check( n <= excused, "descriptor_leak", what );
	}

	struct Tree {
		string value;
		vector< std::pair< string, Tree > > kids;
		bool operator==( const Tree& o ) const { return value == o.value && kids == o.kids; }
		bool operator!=( const Tree& o ) const { return !( *this == o ); }
		size_t count() const { size_t n = 1; for ( auto& k : kids ) n += k.second.count(); return n; }
		u64 hash() const { u64 h = sim::hash_str( 3, value ); for ( auto& k : kids ) { h = sim::hash_str( h, k.first ); h = sim::mix( h ^ k.second.hash() ); } return h; }
		string text( int depth = 0 ) const { string s = sim::show( value, 60 ); if ( !kids.empty() ) { s += "{"; for ( auto& k : kids ) s += " " + sim::show( k.first, 40 ) + ":" + k.second.text( depth + 1 ); s += " }"; } return s; }
	};

	/// where two trees differ first, for messages
	inline string diff( const Tree& want, const Tree& got, const string& at = "root" )
	{
		if ( want.value != got.value ) return at + ": value should be " + sim::show( want.value, 60 ) + " but is " + sim::show( got.value, 60 );
		for ( size_t i = 0; i < want.kids.size() && i < got.kids.size(); ++i )
		{
			if ( want.kids[ i ].first != got.kids[ i ].first ) return at + ": label " + std::to_string( i ) + " should be " + sim::show( want.kids[ i ].first, 60 ) + " but is " + sim::show( got.kids[ i ].first, 60 );
			string d = diff( want.kids[ i ].second, got.kids[ i ].second, at + "." + sim::show( want.kids[ i ].first, 30 ) );
			if ( !d.empty() ) return d;
		}
		if ( want.kids.size() != got.kids.size() ) return at + ": should have " + std::to_string( want.kids.size() ) + " children but has " + std::to_string( got.kids.size() );
		return "";
	}

	inline bool is_space( char c ) { return c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f'; }
	inline bool is_letter( char c ) { return ( c >= 'a' && c <= 'z' ) || ( c >= 'A' && c <= 'Z' ); }

	/// absolute path without ., .. and double separators
	inline string resolve( const string& s )
	{
		vector<string> c; string w;
		for ( size_t i = 0; i <= s.size(); ++i )
		{
			if ( i == s.size() || s[ i ] == '/' ) { if ( w == ".." ) { if ( !c.empty() ) c.pop_back(); } else if ( !w.empty() && w != "." ) c.push_back( w ); w.clear(); }
			else w += s[ i ];
		}
		string o; for ( auto& x : c ) o += "/" + x;
		return o.empty() ? "/" : o;
	}
	inline string parent( const string& s ) { size_t n = s.rfind( '/' ); return n == 0 || n == string::npos ? "/" : s.substr( 0, n ); }
	inline bool is_prefix( const string& dir, const string& path ) { return path == dir || dir == "/" || ( path.size() > dir.size() && path.compare( 0, dir.size(), dir ) == 0 && path[ dir.size() ] == '/' ); }

	/// cut a text to the domain of values: no NUL, no white space at the ends
	inline string fit_value( string s )
	{
		string r; for ( char c : s ) if ( c ) r += c;
		while ( !r.empty() && is_space( r.back() ) ) r.pop_back();
		size_t b = 0; while ( b < r.size() && is_space( r[ b ] ) ) ++b;
		return r.substr( b );
	}
	inline string fit_label( const string& s )
	{
		string r = fit_value( s );
		if ( r.empty() || !is_letter( r[ 0 ] ) ) r = "k" + r;
		return r;
	}

	inline string random_text( Rng& r, int mode, size_t maxlen )
	{
		static const char* special = "={}%;'\"\\ \t\n\r,.:#[]<>&/?!()*+-|$@~`^";
		static const vector<string> utf = { "\xc3\xa9", "\xe2\x82\xac", "\xf0\x9f\x98\x80", "\xff", "\x80", "\xc3" };
		size_t len = r.below( maxlen + 1 );
		string s;
		while ( s.size() < len )
		{
			switch ( mode )
			{
			case 0: s += (char)( 'a' + r.below( 26 ) ); break;
			case 1: s += r.chance( 0.5 ) ? (char)( 'a' + r.below( 26 ) ) : special[ r.below( strlen( special ) ) ]; break;
			case 2: s += (char)( 1 + r.below( 255 ) ); break;
			case 3: s += r.chance( 0.5 ) ? string( 1, (char)( ' ' + r.below( 95 ) ) ) : r.pick( utf ); break;
			case 4: s += r.chance( 0.3 ) ? (char)( 1 + r.below( 31 ) ) : r.chance( 0.4 ) ? (char)( '0' + r.below( 10 ) ) : '\\'; break;
			default: s += (char)( '0' + r.below( 10 ) ); if ( r.chance( 0.2 ) ) s += '.';
			}
		}
		return s;
	}
	inline string gen_value( Rng& r, int swarm )
	{
		if ( r.chance( 0.12 ) ) return "";
		static const vector<string> nasty = { "%", "{", "}", "=", ";", "'", "\"", "\\", "% x", "a=b", "a{b", "\"\"", "''", "\\n", "a\\", "\\\\", "it's", "a;b", "{}", "a % b", "\x01", "\x7f", "\\0337", "x\n%y\nz", "1\n}", "#a", "a\tb", "[g]" };
		if ( swarm > 0 && r.chance( 0.2 ) ) return r.pick( nasty );
		int mode = swarm == 0 ? ( r.chance( 0.5 ) ? 0 : 5 ) : (int)r.below( 6 );
		size_t len = r.chance( 0.05 ) ? 3000 : r.chance( 0.2 ) ? 80 : 12;
		return fit_value( random_text( r, mode, len ) );
	}
	inline string gen_label( Rng& r, int swarm )
	{
		static const vector<string> names = { "a", "b", "c", "key", "name", "x1", "INCLUDE", "file", "Value" };
		if ( r.chance( 0.5 ) ) return r.pick( names );
		return fit_label( string( 1, (char)( ( r.chance( 0.5 ) ? 'a' : 'A' ) + r.below( 26 ) ) ) + random_text( r, swarm == 0 ? 0 : (int)r.below( 6 ), r.chance( 0.01 ) ? 1500 : r.chance( 0.1 ) ? 60 : 6 ) );
	}
	/// now and then, make a node operation one for many nodes
	inline void gen_bulk( Rng& r, Op& op, double rate = 0.015, i64 wide = 600, i64 deep = 120 )
	{
		if ( !r.chance( rate ) ) return;
		bool d = r.chance( 0.5 );
		i64 lim = d ? deep : wide; if ( r.chance( 0.12 ) ) lim *= 4;
		i64 n = r.chance( 0.5 ) ? r.range( 2, lim / 4 ) : r.range( lim / 4, lim );
		op.n.resize( 3 ); op.n.push_back( n ); op.n.push_back( d ? 1 : 0 );
		if ( op.s.size() > 1 && op.s[ 1 ].size() > 40 ) op.s[ 1 ].resize( 10 );
		if ( op.s.size() > 0 && op.s[ 0 ].size() > 40 ) op.s[ 0 ].resize( 10 );
	}
	/// add node operations that build part of a tree: op node <slot> <depth> "label" "value"
	inline void gen_nodes( Rng& r, Plan& p, i64 slot, int swarm, size_t n, bool value_and_kids, int maxdepth = 6 )
	{
		int depth = 0;
		for ( size_t i = 0; i < n; ++i )
		{
			gen_bulk( r, p.add( "node", { slot, depth, value_and_kids ? 1 : 0 }, { gen_label( r, swarm ), gen_value( r, swarm ) } ) );
			if ( r.chance( 0.35 ) && depth < maxdepth ) ++depth;
			else while ( depth > 0 && r.chance( 0.4 ) ) --depth;
		}
	}
	/// apply a node operation to a tree; optional numbers: how many nodes (numbered labels and values), 0 next to or 1 inside each other
	inline void apply_node( Tree& t, const Op& op, bool fit = true )
	{
		Tree* n = &t;
		for ( i64 d = op.i( 1 ); d > 0 && !n->kids.empty(); --d ) n = &n->kids.back().second;
		bool deep = op.i( 4 ) != 0;
		i64 count = std::min< i64 >( std::max< i64 >( op.i( 3 ), 1 ), deep ? 480 : 3000 );
		for ( i64 i = 0; i < count; ++i )
		{
			if ( n != &t && op.i( 2 ) == 0 ) n->value.clear(); // either a value or children
			string l = op.str( 0 ), v = op.str( 1 );
			if ( i > 0 ) { l += std::to_string( i ); v += std::to_string( i ); }
			Tree k; k.value = fit ? fit_value( v ) : v;
			n->kids.emplace_back( fit ? fit_label( l ) : l, k );
			if ( deep ) n = &n->kids.back().second;
		}
	}
}

#ifdef SCEN_PROP_NODE
#include "flut/prop_node.hpp"
namespace scen
{
	inline Tree tree_of( const flut::prop_node& pn )
	{
		sim::Pause pause;
		Tree t; t.value = pn.get_value();
		for ( auto it = pn.begin(); it != pn.end(); ++it ) t.kids.emplace_back( it->first, tree_of( it->second ) );
		return t;
	}
	inline void fill( flut::prop_node& pn, const Tree& t )
	{
		pn.set_value( t.value );
		for ( auto& k : t.kids ) fill( pn.push_back( k.first ), k.second );
	}
	inline flut::prop_node prop_of( const Tree& t ) { sim::Pause pause; flut::prop_node pn; fill( pn, t ); return pn; }
}
#endif
