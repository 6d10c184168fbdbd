// C06: XML and INI round trips, comments and blank lines in INI files, split I/O, interleaved tasks.
#define SCEN_PROP_NODE
#include "common.hpp"
#include "flut/prop_node_tools.hpp"
using namespace sim; using namespace scen;

const char* scen_id = "C06";

static string fit( string s, bool utf )
{
	string o;
	for ( unsigned char c : s ) if ( c >= 32 && c != 127 && ( c < 128 || utf ) ) o += (char)c;
	return fit_value( o );
}
static string xml_name( const string& s ) { string o; for ( char c : s ) if ( isalnum( (unsigned char)c ) || c == '_' || c == '-' || c == '.' ) o += c; if ( o.empty() || !( is_letter( o[ 0 ] ) || o[ 0 ] == '_' ) ) o = "n" + o; return o; }
static string ini_name( const string& s ) { string o; for ( char c : fit( s, true ) ) if ( c != '=' && c != '[' && c != ']' && c != '#' ) o += c; o = fit_value( o ); return o.empty() ? "k" : o; }
static string ini_value( const string& s ) { string o = fit( s, true ); return o.empty() ? "v" : o; }

void scen_gen( Rng& r, Plan& p, bool thorough )
{
	int tasks = r.chance( 0.6 ) ? 1 : (int)r.range( 2, 3 );
	p.cfg[ "tasks" ] = tasks;
	p.cfg[ "io_seed" ] = r.chance( 0.6 ) ? (i64)( r.next() >> 2 ) : 0;
	int n = (int)r.range( 2, thorough ? 14 : 8 );
	for ( int i = 0; i < n; ++i )
	{
		i64 t = r.below( tasks );
		if ( r.chance( 0.3 ) ) p.add( "clear", { t } );
		// nodes reuse the generic generator; labels and values are cut to the domain of the format when used
		int depth = 0;
		for ( size_t k = r.chance( 0.1 ) ? r.below( 100 ) : r.below( 10 ); k > 0; --k )
		{
			static const vector<string> nasty = { "<", ">", "&", "\"", "'", "&amp;", "<a>", "</root>", "]]>", "a<b", "a & b", "--", "<!--", "&#65;", "\xc3\xa9", "x=y", "=", "[g]", "#c", ";c", "a#b", "a = b", "%", "C:\\dir\\", "\"q\"", "[", "]", "a ]" };
			gen_bulk( r, p.add( "node", { t, depth, 0 }, { gen_label( r, (int)r.below( 3 ) ), r.chance( 0.3 ) ? r.pick( nasty ) : random_text( r, r.chance( 0.5 ) ? 1 : 3, r.chance( 0.1 ) ? 300 : 12 ) }  ), 0.01, 300, 60 );
			if ( r.chance( 0.35 ) && depth < 5 ) ++depth; else if ( depth && r.chance( 0.4 ) ) --depth;
		}
		bool xml = r.chance( 0.5 );
		p.add( xml ? "xml" : "ini", { t, (i64)r.below( 2 ) } );
		if ( !xml && r.chance( 0.6 ) )
			for ( i64 k = r.range( 1, 5 ); k > 0; --k )
			{
				static const vector<string> lines = { "# comment", "#", "#a=1", "# [x]", "", "  ", "\t", "   # indented", "##", "#=", "\r", "# \xc3\xa9", "", "# a = b = c" };
				p.add( "line", { t, (i64)r.below( 2 ), (i64)r.below( 1000 ) }, { r.pick( lines ) } );
			}
		if ( r.chance( 0.8 ) ) p.add( "load", { t, (i64)r.below( 2 ), (i64)xml } );
	}
	for ( i64 t = 0; t < tasks; ++t ) for ( i64 f = 0; f < 2; ++f ) { p.add( "load", { t, f, 0 } ); p.add( "load", { t, f, 1 } ); }
	if ( tasks > 1 ) { p.sched = gen_sched( r, 200, r.unit() * 0.5, tasks ); gen_fine( r, p ); }
}

static Tree xml_of( const Tree& t, bool top = true )
{
	Tree r;
	if ( t.kids.empty() ) r.value = fit( t.value, true );
	for ( auto& k : t.kids ) r.kids.emplace_back( xml_name( k.first ), xml_of( k.second, false ) );
	return r;
}
static Tree ini_of( const Tree& t )
{
	Tree r; std::set<string> seen;
	auto uniq = []( std::set<string>& s, string n ) { while ( !s.insert( n ).second ) n += "x"; return n; };
	for ( int groups = 0; groups < 2; ++groups )
		for ( auto& k : t.kids )
		{
			if ( ( !k.second.kids.empty() ) != ( groups == 1 ) ) continue;
			Tree n;
			if ( !groups ) n.value = ini_value( k.second.value );
			else { std::set<string> in; for ( auto& e : k.second.kids ) { Tree v; v.value = ini_value( e.second.value ); n.kids.emplace_back( uniq( in, ini_name( e.first ) ), v ); } }
			r.kids.emplace_back( uniq( seen, ini_name( k.first ) ), n );
		}
	return r;
}

void scen_run( const Plan& p )
{
	int ntasks = (int)std::max<i64>( 1, p.c( "tasks", 1 ) );
	vfs().mkdirs( "/w" );
	vector< std::function< void() > > tasks;
	for ( int t = 0; t < ntasks; ++t ) tasks.push_back( [&p, t, ntasks]() {
		Tree cur; Tree want[ 2 ][ 2 ]; bool have[ 2 ][ 2 ] = {};
		auto name = [&]( size_t f, bool xml ) { return "/w/t" + std::to_string( t ) + "_" + std::to_string( f ) + ( xml ? ".xml" : ".ini" ); };
		for ( auto& op : p.ops )
		{
			if ( (int)op.ix( 0, ntasks ) != t ) continue;
			size_t f = op.ix( 1, 2 );
			if ( op.kind == "clear" ) cur = Tree();
			else if ( op.kind == "node" ) apply_node( cur, op );
			else if ( op.kind == "xml" )
			{
				Tree w; w.kids.emplace_back( "root", xml_of( cur ) );
				flut::prop_node pn = prop_of( w ); flut::path fn( name( f, true ) );
				{ CallScope c( op ); flut::save_xml( pn, fn ); }
				want[ f ][ 1 ] = w; have[ f ][ 1 ] = true; probe( "xml saved" );
				state( hash_str( 1, vfs().data( name( f, true ) ) ) );
			}
			else if ( op.kind == "ini" )
			{
				Tree w = ini_of( cur );
				flut::prop_node pn = prop_of( w ); flut::path fn( name( f, false ) );
				{ CallScope c( op ); flut::save_ini( pn, fn ); }
				want[ f ][ 0 ] = w; have[ f ][ 0 ] = true; probe( "ini saved" );
				state( hash_str( 2, vfs().data( name( f, false ) ) ) );
			}
			else if ( op.kind == "line" && have[ f ][ 0 ] )
			{
				// insert a comment or blank line at a line boundary
				auto& d = vfs().node( name( f, false ) )->data;
				vector<size_t> b = { 0 }; for ( size_t i = 0; i < d.size(); ++i ) if ( d[ i ] == '\n' ) b.push_back( i + 1 );
				d.insert( b[ op.ix( 2, b.size() ) ], op.str( 0 ) + "\n" );
				probe( "comment or blank line" ); nontrivial();
			}
			else if ( op.kind == "load" )
			{
				bool xml = op.i( 2 ) != 0;
				if ( !have[ f ][ xml ] ) continue;
				flut::path fn( name( f, xml ) ); flut::prop_node pn;
				try { CallScope c( op ); pn = xml ? flut::load_xml( fn ) : flut::load_ini( fn ); }
				catch ( std::exception& e ) { fail( xml ? "xml_load" : "ini_load", string( "loading a saved file failed: " ) + e.what() + "; file " + show( vfs().data( fn.str() ), 300 ) ); }
				Tree g = tree_of( pn );
				check( g == want[ f ][ xml ], xml ? "xml_round_trip" : "ini_round_trip", diff( want[ f ][ xml ], g ) + "; file " + show( vfs().data( fn.str() ), 300 ) );
				ev( "loaded" );
				if ( xml && op.i( 1 ) ) { flut::error_code ec; CallScope c( op ); pn = flut::load_xml( fn, &ec ); check( ec.ok() && tree_of( pn ) == want[ f ][ 1 ], "xml_round_trip", "loading with an error object differs" ); }
				if ( xml ) { flut::prop_node q = flut::load_file( fn ); check( tree_of( q ) == want[ f ][ 1 ], "xml_round_trip", "load_file differs from load_xml" ); }
			}
		}
	} );
	run_tasks( p, tasks );
}
