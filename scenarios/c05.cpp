// C05: loading files torn by a crash or damaged on disk.
#define SCEN_PROP_NODE
#include "common.hpp"
#include <algorithm>
#include "flut/prop_node_tools.hpp"
using namespace sim; using namespace scen;

const char* scen_id = "C05";
enum { k_prop, k_xml, k_ini };
static const vector<string> files = { "/w/f.prop", "/w/f.xml", "/w/f.ini" };

void scen_gen( Rng& r, Plan& p, bool thorough )
{
	int swarm = (int)r.below( 4 );
	p.cfg[ "io_seed" ] = r.chance( 0.4 ) ? (i64)( r.next() >> 2 ) : 0;
	int n = (int)r.range( 1, thorough ? 6 : 4 );
	for ( int i = 0; i < n; ++i )
	{
		i64 kind = r.chance( 0.6 ) ? k_prop : r.chance( 0.6 ) ? k_xml : k_ini;
		if ( r.chance( 0.5 ) ) p.add( "clear" );
		gen_nodes( r, p, 0, kind == k_prop ? swarm : (int)r.below( 2 ), r.chance( 0.1 ) ? r.below( 150 ) : r.below( 10 ), kind == k_prop && r.chance( 0.5 ) );
		// save <kind> <readable>
		auto& op = p.add( "save", { kind, (i64)r.below( 2 ) } );
		if ( r.chance( 0.3 ) ) { op.f.push_back( Fault{ "mut", r.logrange( 6 ), "crash", (i64)r.below( 20000 ) } ); p.add( "load", { kind, (i64)r.below( 2 ) } ); continue; }
		int d = (int)r.range( 1, 4 );
		for ( int k = 0; k < d; ++k )
		{
			switch ( r.below( 8 ) )
			{
			case 0: case 1: case 2: p.add( "cut", { kind, (i64)r.below( 1000000 ) } ); break;
			case 3: p.add( "flip", { kind, (i64)r.below( 1000000 ), (i64)( 1 + r.below( 255 ) ) } ); break;
			case 4: p.add( "zero", { kind, (i64)r.below( 1000000 ), r.logrange( 600 ), (i64)r.below( 2 ) } ); break;
			case 5: p.add( "drop", { kind, (i64)r.below( 1000000 ), r.logrange( 600 ) } ); break;
			case 6: p.add( "repeat", { kind, (i64)r.below( 1000000 ), r.logrange( 100 ), r.logrange( 8 ) } ); break;
			case 7:
			{
				// structural bytes in odd places
				static const vector<string> bits = { "\\", "\"", "'", "{", "}", "=", "%", ";", "<", ">", "</", "/>", "&", "&#", "&#x", "<!--", "<![CDATA[", "<?", "[", "]", "#", "\n", "<!DOCTYPE", "\\0", "&#xFFFFFFFF;", "&amp", "<a ", "=\"", "% \n", "\t" };
				p.add( "insert", { kind, (i64)r.below( 1000000 ), r.logrange( 20 ) }, { r.pick( bits ) } ); break;
			}
			}
			if ( r.chance( 0.7 ) ) p.add( "load", { kind, (i64)r.below( 2 ) } );
		}
		p.add( "load", { kind, (i64)r.below( 2 ) } );
	}
	if ( r.chance( 0.06 ) )
	{
		// a large file: a block of an ordinary or damaged one many times over, or a very long value
		static const vector<string> blocks = { "a = 1\n", "a { ", "a = {", "\"", "\\", "\\\"", "x", "x ", "%", "%\n", ";", "= ", "'", "a = \"", "a = '\n", "<a>", "<a></a>", "<a/>", "<", "&amp;", "&#65;", "<a b=\"c\"/>", "<!--", " ", "\n", "[a]\n", "a=1\n", "#", "# c\n", "\t", "}", "a { b = 1 }\n", "a\n" };
		static const vector<string> heads = { "", "", "a = \"", "a = '", "a = ", "<a>", "<a b=\"", "<a><b>", "a=", "[", "% ", "a { b = \"" };
		static const vector<string> tails = { "", "", "\"", "</a>", "\"/>", "}", "\n" };
		i64 kind = r.below( 3 ); p.add( "grow", { kind, r.chance( 0.7 ) ? r.range( 1000, 20000 ) : r.range( 20000, 120000 ) }, { r.pick( heads ), r.pick( blocks ), r.pick( tails ) } );
		p.add( "load", { kind, (i64)r.below( 2 ) } );
	}
	if ( r.chance( 0.05 ) ) { i64 kind = r.below( 3 ); p.add( "junk", { kind }, { random_text( r, (int)r.below( 6 ), 3000 ) } ); p.add( "load", { kind, (i64)r.below( 2 ) } ); }
}

static Tree ini_tree( const Tree& t )
{
	Tree r; std::set<string> seen;
	auto clean = []( string s, bool key ) { string o; for ( char c : s ) if ( (unsigned char)c > 32 && c != '=' && c != '[' && c != ']' && c != '#' ) o += c; if ( key && o.empty() ) o = "k"; return o; };
	for ( auto& k : t.kids ) { Tree v; v.value = clean( k.second.value, true ); if ( seen.insert( clean( k.first, true ) ).second ) r.kids.emplace_back( clean( k.first, true ), v ); }
	return r;
}
static Tree xml_tree( const Tree& t )
{
	std::function< Tree( const Tree& ) > rec = [&]( const Tree& x ) { Tree r; r.value = x.kids.empty() ? x.value : ""; for ( auto& k : x.kids ) { string l = "n"; for ( char c : k.first ) if ( isalnum( (unsigned char)c ) ) l += c; r.kids.emplace_back( l, rec( k.second ) ); } return r; };
	Tree root; root.kids.emplace_back( "root", rec( t ) );
	if ( !root.kids[ 0 ].second.kids.empty() ) root.kids[ 0 ].second.value.clear();
	return root;
}

void scen_run( const Plan& p )
{
	vfs().mkdirs( "/w" );
	Tree cur;
	struct F {
		Tree tree; string full; ///< tree saved last and its complete text
		vector<size_t> ends; ///< end of each top-level entry in the text
		bool prefix = false; ///< the file is a beginning of full
		bool have = false;
	} fs[ 3 ];
	auto save = [&]( int k, const Tree& t, bool readable, const string& fn ) {
		flut::path pth( fn );
		if ( k == k_prop ) flut::save_prop( prop_of( t ), pth, readable );
		else if ( k == k_xml ) flut::save_xml( prop_of( t ), pth );
		else flut::save_ini( prop_of( t ), pth );
	};
	for ( auto& op : p.ops )
	{
		int k = (int)op.ix( 0, 3 );
		F& f = fs[ k ];
		auto* nd = vfs().node( files[ k ] );
		string* d = nd ? &nd->data : nullptr;
		size_t pos = d && !d->empty() ? (size_t)( (u64)op.i( 1 ) % ( d->size() + 1 ) ) : 0;
		size_t len = (size_t)std::max<i64>( 0, op.i( 2 ) );
		if ( op.kind == "clear" ) cur = Tree();
		else if ( op.kind == "node" ) apply_node( cur, op );
		else if ( op.kind == "junk" ) { vfs().put( files[ k ], op.str( 0 ) ); f.prefix = false; f.have = true; }
		else if ( op.kind == "grow" )
		{
			string s = op.str( 0 ); size_t n = (size_t)std::min< i64 >( std::max< i64 >( op.i( 1 ), 1 ), 200000 );
			// nesting takes a stack frame per level: a thousand levels at most
			size_t levels = 0, per = std::count( op.str( 1 ).begin(), op.str( 1 ).end(), '{' ) + std::count( op.str( 1 ).begin(), op.str( 1 ).end(), '<' );
			while ( !op.str( 1 ).empty() && s.size() < n && levels + per <= 1000 ) { s += op.str( 1 ); if ( op.str( 1 ).find_first_of( "}/" ) == string::npos ) levels += per; }
			vfs().put( files[ k ], s + op.str( 2 ) ); f = F(); f.have = true; nontrivial(); probe( "large file" );
		}
		else if ( op.kind == "save" )
		{
			F before = f;
			string old = d ? *d : string();
			f = F();
			f.have = true; f.prefix = true;
			f.tree = k == k_prop ? cur : k == k_xml ? xml_tree( cur ) : ini_tree( cur );
			bool readable = op.i( 1 ) != 0;
			// reference text and the ends of the top-level entries, from clean saves of the first entries
			save( k, f.tree, readable, "/w/ref" );
			f.full = vfs().data( "/w/ref" );
			// the entries one by one, if that gives the same text
			if ( k == k_prop )
			{
				string sum;
				for ( auto& e : f.tree.kids )
				{
					Tree one; one.kids.push_back( e );
					save( k, one, readable, "/w/ref" );
					sum += vfs().data( "/w/ref" ); f.ends.push_back( sum.size() );
				}
				if ( sum != f.full ) f.ends.clear();
			}
			if ( k == k_prop && f.ends.empty() && f.tree.kids.size() <= 60 )
			{
				Tree part;
				for ( auto& e : f.tree.kids )
				{
					part.kids.push_back( e );
					save( k, part, readable, "/w/ref" );
					string t = vfs().data( "/w/ref" );
					if ( f.full.compare( 0, t.size(), t ) != 0 ) { f.ends.clear(); break; }
					f.ends.push_back( t.size() );
				}
			}
			vfs().erase( "/w/ref" );
			flut::prop_node pn = prop_of( f.tree );
			flut::path pth( files[ k ] );
			{
				CallScope c( op );
				if ( k == k_prop ) flut::save_prop( pn, pth, readable ); else if ( k == k_xml ) flut::save_xml( pn, pth ); else flut::save_ini( pn, pth );
			}
			if ( vfs().crashed )
			{
				vfs().take_crash();
				string now;
				bool there = vfs().get( files[ k ], now );
				probe( "crash during save" );
				if ( !there || now == old ) { f = before; if ( !there ) f.have = false; } // the old file survived
				else { f.prefix = now.size() <= f.full.size() && f.full.compare( 0, now.size(), now ) == 0; if ( f.prefix ) probe( "torn file" ); }
			}
		}
		else if ( op.kind == "cut" && d ) { d->resize( pos ); nontrivial(); probe( "cut" ); }
		else if ( op.kind == "flip" && d && !d->empty() ) { ( *d )[ pos % d->size() ] ^= (char)op.i( 2 ); f.prefix = false; nontrivial(); probe( "flip" ); }
		else if ( op.kind == "zero" && d ) { for ( size_t i = pos; i < d->size() && i < pos + len; ++i ) ( *d )[ i ] = op.i( 3 ) ? ' ' : 0; f.prefix = false; nontrivial(); probe( "zero" ); }
		else if ( op.kind == "drop" && d ) { d->erase( pos, len ); f.prefix = false; nontrivial(); probe( "drop" ); }
		else if ( op.kind == "repeat" && d ) { string b = d->substr( pos, len ); for ( i64 i = std::min<i64>( op.i( 3 ), 16 ); i > 0; --i ) d->insert( pos, b ); f.prefix = false; nontrivial(); probe( "repeat" ); }
		else if ( op.kind == "insert" && d ) { string b; for ( size_t i = 0; i < std::min<size_t>( len, 50 ); ++i ) b += op.str( 0 ); d->insert( pos, b ); f.prefix = false; nontrivial(); probe( "insert" ); }
		else if ( op.kind == "load" && d && f.have )
		{
			bool use_ec = op.i( 1 ) != 0 && k != k_ini;
			flut::error_code ec; bool err = false; string what;
			flut::prop_node pn;
			flut::path pth( files[ k ] );
			ev( "load " + files[ k ] );
			i64 bytes, work;
			{
				CallScope c( op );
				try
				{
					if ( k == k_prop ) pn = flut::load_prop( pth, use_ec ? &ec : nullptr );
					else if ( k == k_xml ) pn = flut::load_xml( pth, use_ec ? &ec : nullptr );
					else pn = flut::load_ini( pth );
				}
				catch ( std::exception& e ) { Pause pz; err = true; what = e.what(); if ( use_ec ) fail( "exception_despite_ec", "loading a damaged file threw although an error object was given: " + what ); }
				bytes = c.bytes(); work = c.work();
			}
			check( bytes <= ( 8 << 20 ) + 1000 * (i64)d->size(), "memory_budget", "loading " + std::to_string( d->size() ) + " bytes allocated " + std::to_string( bytes ) + " bytes" );
			if ( k != k_ini ) check( work <= 1000000 + 500 * (i64)d->size(), "work_budget", "loading " + std::to_string( d->size() ) + " bytes took " + std::to_string( work ) + " function calls" );
			if ( ec.error() ) err = true;
			Tree g = tree_of( pn );
			ev( err ? "error" : "tree" );
			probe( err ? "error reported" : "tree returned" );
			state( hash_str( k, *d ) );
			if ( f.prefix && !err )
			{
				if ( k == k_prop && f.ends.size() == f.tree.kids.size() )
				{
					for ( size_t i = 0; i < f.ends.size() && f.ends[ i ] <= d->size(); ++i )
						check( i < g.kids.size() && g.kids[ i ] == f.tree.kids[ i ], "entry_lost", "the file is cut off after " + std::to_string( d->size() ) + " bytes, entry " + std::to_string( i ) + " ends at " + std::to_string( f.ends[ i ] ) + " but was not loaded, and no error was reported; file " + show( *d, 200 ) );
					if ( d->size() < f.full.size() ) probe( "cut prop accepted" );
				}
				if ( k == k_xml )
				{
					size_t end = f.full.find_last_of( '>' );
					if ( end != string::npos && d->size() <= end )
						check( g == Tree(), "cut_xml_accepted", "an XML file cut off inside its root element was accepted: " + show( *d, 200 ) );
					else check( g == f.tree, "complete_xml_changed", "a complete XML file was loaded differently: " + diff( f.tree, g ) );
				}
			}
			if ( d->size() == f.full.size() && f.prefix && k == k_prop )
				check( !err && g == f.tree, "complete_file_rejected", "the complete file was not loaded: " + what + diff( f.tree, g ) );
		}
	}
}
