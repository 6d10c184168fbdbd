// C07: include graphs over folders, with missing and broken files, cycles, long chains, open, read and allocation faults.
#define SCEN_PROP_NODE
#include "common.hpp"
#include "flut/prop_node_tools.hpp"
using namespace sim; using namespace scen;

const char* scen_id = "C07";
static const vector<string> names = { "/w/main.prop", "/w/a/one.prop", "/w/a/b/two.prop", "/w/three.xml", "/w/a/four.xml", "/w/my dir/five.prop", "/w/a/b/six", "/w/my dir/seven.xml", "/w/eight.scone", "/w/my.xml dir/nine.prop", "/w/a/ten.xml.prop", "/w/a/eleven.prop.xml" };
static const vector<string> dirs = { "/w", "/w/a", "/w/a/b", "/", "/w/my dir", "/w/my.xml dir" };
static const vector<string> directives = { "INCLUDE", "include", "import_file" };

static bool is_xml( const string& f ) { return f.size() > 4 && f.substr( f.size() - 4 ) == ".xml"; }

void scen_gen( Rng& r, Plan& p, bool thorough )
{
	p.cfg[ "io_seed" ] = r.chance( 0.5 ) ? (i64)( r.next() >> 2 ) : 0;
	p.cfg[ "directive" ] = r.chance( 0.7 ) ? 0 : r.below( 3 );
	p.cfg[ "decoys" ] = r.chance( 0.5 );
	FaultMix m;
	m.rate = r.chance( 0.3 ) ? 0 : 0.3 + r.unit() * 0.6;
	m.open = r.chance( 0.5 ); m.read = r.chance( 0.5 ); m.alloc = r.chance( 0.3 ); m.alloc_span = 400;
	bool cyclic = r.chance( 0.15 ), acyclic_dense = r.chance( 0.3 );
	size_t nf = 1 + r.below( names.size() );
	for ( size_t f = 0; f < nf; ++f )
	{
		p.add( "file", { (i64)f } );
		bool multi = f == 0 ? r.chance( 0.6 ) : r.chance( 0.03 );
		int depth = 0; size_t n = f > 0 && r.chance( 0.02 ) ? 0 : 1 + r.below( acyclic_dense ? 9 : 6 );
		for ( size_t i = 0; i < n; ++i )
		{
			if ( !multi && i > 0 && depth == 0 ) depth = 1;
			if ( ( i > 0 || multi || r.chance( 0.1 ) ) && r.chance( acyclic_dense ? 0.6 : 0.4 ) )
			{
				i64 to = cyclic ? (i64)r.below( nf ) : f + 1 < nf ? (i64)( f + 1 + r.below( nf - f - 1 ) ) : r.chance( 0.1 ) ? 99 : -1;
				if ( r.chance( 0.03 ) ) to = 99; // a file that is not there
				if ( to >= 0 ) { p.add( "inc", { (i64)f, depth, to, (i64)r.below( 3 ), (i64)r.below( 4 ) } ); continue; }
			}
			auto& nd = p.add( "node", { (i64)f, depth, 0 }, { string( 1, (char)( 'a' + r.below( 6 ) ) ) + ( r.chance( 0.3 ) ? std::to_string( r.below( 9 ) ) : "" ), random_text( r, r.chance( 0.5 ) ? 0 : 5, 5 ) + "v" } ); if ( depth > 0 ) gen_bulk( r, nd, 0.02, 200, 60 );
			if ( r.chance( 0.5 ) && depth < 5 ) ++depth; else if ( depth > 1 && r.chance( 0.4 ) ) --depth;
		}
	}
	int loads = (int)r.range( 1, thorough ? 8 : 4 );
	for ( int i = 0; i < loads; ++i )
	{
		double k = r.unit();
		if ( k < 0.06 ) p.add( "break", { (i64)r.below( nf ), (i64)r.below( 3 ) } );
		else if ( k < 0.1 ) p.add( "gone", { (i64)r.below( nf ) } );
		else if ( k < 0.14 ) { static const vector<i64> ls = { 2, 5, 20, 60, 90 }; p.add( "chain", { r.pick( ls ), (i64)r.chance( 0.3 ), (i64)r.below( 2 ) } ); }
		if ( r.chance( 0.12 ) ) { p.add( "together", { r.chance( 0.5 ) ? 0 : (i64)r.below( nf ), r.chance( 0.5 ) ? 0 : (i64)r.below( nf ) } ); if ( p.sched.empty() ) { p.sched = gen_sched( r, 400, 0.1 + r.unit() * 0.6, 2 ); gen_fine( r, p ); } }
		auto& op = p.add( "load", { r.chance( 0.75 ) ? 0 : (i64)r.below( nf ), (i64)r.below( 3 ), (i64)r.below( 6 ) } );
		if ( m.rate > 0 ) { add_faults( r, op, m ); for ( auto& f : op.f ) if ( f.call == "open" && r.chance( 0.5 ) ) f.nth = r.below( 8 ); }
	}
}

struct File { bool there = true, broken = false; Tree tree; };
struct Model
{
	std::map< string, File > files;
	string directive;
	i64 loads = 0;
	struct Bad { string why; };

	static string resolve( string s )
	{
		vector<string> c; string w;
		for ( size_t i = 0; i <= s.size(); ++i )
		{
			if ( i == s.size() || s[ i ] == '/' ) { if ( w == ".." ) { if ( !c.empty() ) c.pop_back(); } else if ( !w.empty() && w != "." ) c.push_back( w ); w.clear(); }
			else w += s[ i ];
		}
		string o; for ( auto& x : c ) o += "/" + x;
		return o;
	}
	Tree load( const string& f, vector<string> stack )
	{
		if ( ++loads > 2000 ) throw Bad{ "too many" };
		for ( auto& s : stack ) if ( s == f ) throw Bad{ "cycle through " + f };
		auto it = files.find( f );
		if ( it == files.end() || !it->second.there ) throw Bad{ f + " is missing" };
		if ( it->second.broken ) throw Bad{ f + " is malformed" };
		stack.push_back( f );
		Tree t = it->second.tree;
		expand( t, f, stack );
		return t;
	}
	void expand( Tree& t, const string& f, const vector<string>& stack )
	{
		for ( size_t i = 0; i < t.kids.size(); )
		{
			if ( t.kids[ i ].first != directive ) { expand( t.kids[ i ].second, f, stack ); ++i; continue; }
			string target; bool merge = false;
			for ( auto& k : t.kids[ i ].second.kids ) { if ( k.first == "file" ) target = k.second.value; if ( k.first == "merge_children" ) merge = k.second.value == "1"; }
			Tree in = load( resolve( f.substr( 0, f.rfind( '/' ) ) + "/" + target ), stack );
			if ( in.kids.size() != 1 ) throw Bad{ target + " does not have one root" };
			if ( !merge ) { t.kids[ i ] = in.kids[ 0 ]; ++i; continue; }
			t.kids.erase( t.kids.begin() + i );
			for ( auto& k : in.kids[ 0 ].second.kids )
			{
				bool have = false; for ( auto& o : t.kids ) have = have || o.first == k.first;
				if ( !have ) t.kids.push_back( k );
			}
		}
	}
};

static string rel( const string& from_dir, const string& to )
{
	// path of 'to' as seen from a folder
	vector<string> a, b; string w;
	auto split = []( const string& s, vector<string>& v ) { string w; for ( char c : s + "/" ) if ( c == '/' ) { if ( !w.empty() ) v.push_back( w ); w.clear(); } else w += c; };
	split( from_dir, a ); split( to, b );
	size_t i = 0; while ( i < a.size() && i + 1 < b.size() && a[ i ] == b[ i ] ) ++i;
	string o; for ( size_t k = i; k < a.size(); ++k ) o += "../";
	for ( size_t k = i; k < b.size(); ++k ) o += ( k > i ? "/" : "" ) + b[ k ];
	return o;
}
static void write_prop( const Tree& t, string& o, int lvl )
{
	for ( auto& k : t.kids )
	{
		o += string( lvl, '\t' ) + k.first;
		if ( k.second.kids.empty() ) o += " = \"" + k.second.value + "\"";
		o += "\n";
		if ( !k.second.kids.empty() ) { o += string( lvl, '\t' ) + "{\n"; write_prop( k.second, o, lvl + 1 ); o += string( lvl, '\t' ) + "}\n"; }
	}
}
static void write_xml( const Tree& t, string& o, const string& directive )
{
	for ( auto& k : t.kids )
	{
		if ( k.first == directive && k.second.value == "attr" )
		{
			o += "<" + k.first; for ( auto& a : k.second.kids ) o += " " + a.first + "=\"" + a.second.value + "\""; o += "/>\n";
			continue;
		}
		o += "<" + k.first + ">";
		if ( k.second.kids.empty() ) o += k.second.value; else write_xml( k.second, o, directive );
		o += "</" + k.first + ">\n";
	}
}

void scen_run( const Plan& p )
{
	vfs().mkdirs( "/w/a/b" ); vfs().mkdirs( "/w/my dir" ); vfs().mkdirs( "/w/my.xml dir" );
	Model m;
	m.directive = directives[ (size_t)p.c( "directive" ) % 3 ];
	std::map< string, Tree > source; // with the attribute mark on includes
	auto store = [&]( const string& f, Tree t )
	{
		if ( is_xml( f ) ) { if ( t.kids.empty() ) { Tree x; x.value = "x"; t.kids.emplace_back( "empty", x ); } t.kids.resize( 1 ); }
		string s; if ( is_xml( f ) ) write_xml( t, s, m.directive ); else write_prop( t, s, 0 );
		vfs().put( f, s );
		std::function< void( Tree& ) > clean = [&]( Tree& n ) { for ( auto& k : n.kids ) { if ( !k.second.kids.empty() ) k.second.value.clear(); clean( k.second ); } };
		clean( t );
		m.files[ f ] = File{ true, false, t };
	};
	bool stored = false;
	auto store_all = [&] {
		if ( stored ) return;
		stored = true;
		for ( auto& s : source ) store( s.first, s.second );
		// files of the same names in other folders: never meant by an include
		if ( p.c( "decoys" ) )
			for ( auto& d : dirs ) for ( auto& n : names )
			{
				string f = ( d == "/" ? "" : d ) + n.substr( n.rfind( '/' ) );
				if ( !source.count( f ) ) vfs().put( f, is_xml( f ) ? "<decoy>1</decoy>" : "decoy = 1\n" );
				if ( d != "/w/a" ) vfs().put( ( d == "/" ? "" : d ) + "/nowhere.prop", "decoy = 1\n" );
			}
	};
	for ( auto& op : p.ops )
	{
		if ( op.kind == "file" ) source[ names[ op.ix( 0, names.size() ) ] ];
		else if ( op.kind == "node" || op.kind == "inc" )
		{
			if ( stored ) continue;
			const string& f = names[ op.ix( 0, names.size() ) ];
			Tree* n = &source[ f ];
			for ( i64 d = op.i( 1 ); d > 0 && !n->kids.empty() && n->kids.back().first != m.directive; --d ) n = &n->kids.back().second;
			if ( n != &source[ f ] ) n->value.clear();
			Tree k;
			if ( op.kind == "node" )
			{
				bool deep = op.i( 4 ) != 0; i64 cnt = std::min< i64 >( std::max< i64 >( op.i( 3 ), 1 ), 300 );
				for ( i64 c = 0; c < cnt; ++c ) { string no = c ? std::to_string( c ) : ""; if ( deep && c ) n->value.clear(); n->kids.emplace_back( op.str( 0 ) + no, Tree{ op.str( 1 ) + no, {} } ); if ( deep ) n = &n->kids.back().second; }
				continue;
			}
			string dir = f.substr( 0, f.rfind( '/' ) ), to = op.i( 2 ) == 99 ? "/w/a/nowhere.prop" : names[ op.ix( 2, names.size() ) ], t = rel( dir, to );
			if ( op.ix( 4, 4 ) == 1 ) t = "./" + t;
			k.kids.emplace_back( "file", Tree{ t, {} } );
			if ( op.ix( 3, 3 ) ) k.kids.emplace_back( "merge_children", Tree{ op.ix( 3, 3 ) == 1 ? "1" : "0", {} } );
			if ( op.ix( 4, 4 ) >= 2 ) k.value = "attr";
			n->kids.emplace_back( m.directive, k );
		}
		else if ( op.kind == "break" )
		{
			store_all();
			const string& f = names[ op.ix( 0, names.size() ) ];
			if ( !m.files.count( f ) ) continue;
			m.files[ f ].broken = true;
			vfs().put( f, is_xml( f ) ? ( op.i( 1 ) ? "<a><b></a>" : "no xml" ) : ( op.i( 1 ) ? "a\n{\n\t= 3\n}\n" : "a\n{\n\tb\n\t{\n\t\t1 = 2\n\t}\n}\n" ) );
		}
		else if ( op.kind == "gone" ) { store_all(); const string& f = names[ op.ix( 0, names.size() ) ]; if ( m.files.count( f ) ) { m.files[ f ].there = false; vfs().erase( f ); } }
		else if ( op.kind == "together" )
		{
			// two tasks load at the same time
			store_all();
			vfs().cwd = 1;
			vector< std::function< void() > > tasks;
			for ( int t = 0; t < 2; ++t )
			{
				string top = names[ op.ix( t, names.size() ) ];
				if ( !m.files.count( top ) ) continue;
				bool good = true; string why; Tree want; m.loads = 0;
				try { want = m.load( top, {} ); } catch ( Model::Bad& b ) { good = false; why = b.why; }
				if ( why == "too many" ) continue;
				tasks.push_back( [&m, top, good, why, want] {
					flut::prop_node pn; bool threw = false; string what;
					try { pn = flut::load_file_with_include( flut::path( top ), m.directive ); } catch ( std::exception& e ) { threw = true; what = e.what(); }
					if ( !good ) check( threw, "error_missed", "loading " + top + " while another task loads reported no error although " + why );
					else
					{
						check( !threw, "spurious_error", "loading " + top + " while another task loads reported an error although nothing failed: " + what );
						Tree got = tree_of( pn );
						check( got == want, "expansion", "loading " + top + " while another task loads gave a wrong expansion: " + diff( want, got ) );
					}
					probe( "loads by two tasks" );
				} );
			}
			run_tasks( p, tasks );
		}
		else if ( op.kind == "chain" || op.kind == "load" )
		{
			store_all();
			string top;
			if ( op.kind == "load" ) top = names[ op.ix( 0, names.size() ) ];
			else
			{
				i64 n = op.i( 0 ); if ( n < 1 ) n = 1; if ( n > 90 ) n = 90;
				for ( i64 i = 0; i <= n; ++i )
				{
					Tree t, in; in.kids.emplace_back( "v" + std::to_string( i ), Tree{ "x" + std::to_string( i ), {} } );
					i64 next = i < n ? i + 1 : op.i( 1 ) ? n / 2 : -1;
					if ( next >= 0 ) { Tree inc; inc.kids.emplace_back( "file", Tree{ "c" + std::to_string( next ) + ".prop", {} } ); if ( op.i( 2 ) ) inc.kids.emplace_back( "merge_children", Tree{ "1", {} } ); in.kids.emplace_back( m.directive, inc ); }
					t.kids.emplace_back( "root", in );
					store( "/w/a/c" + std::to_string( i ) + ".prop", t );
				}
				top = "/w/a/c0.prop";
				probe( op.i( 1 ) ? "cyclic chain" : "chain of includes" );
			}
			if ( !m.files.count( top ) ) continue;
			// how the top file is named
			string name = top; vfs().cwd = 1;
			if ( op.kind == "load" && op.ix( 1, 3 ) )
			{
				string d = dirs[ op.ix( 2, dirs.size() ) ];
				vfs().cwd = vfs().find( d );
				name = rel( d, top );
				if ( op.ix( 1, 3 ) == 2 ) name = "./" + name;
			}
			bool good = true; string why; Tree want; m.loads = 0;
			try { want = m.load( top, {} ); } catch ( Model::Bad& b ) { good = false; why = b.why; }
			if ( why == "too many" ) continue;
			for ( int attempt = 0; attempt < 2; ++attempt )
			{
				bool threw = false; string what; i64 fired, afired, opens; std::vector<Fault> none; flut::path fp( name ); flut::prop_node pn;
				{
					CallScope c( attempt ? none : op.f );
					try { pn = flut::load_file_with_include( fp, m.directive ); } catch ( std::exception& e ) { Pause pz; threw = true; what = e.what(); }
					fired = c.fired(); afired = c.fired( c_alloc ); opens = c.count( c_open );
				}
				ev( "load " + name + ( threw ? " error" : " ok" ) );
				check( opens <= 200 * m.loads + 1000, "unbounded", "loading " + name + " opened " + std::to_string( opens ) + " files where " + std::to_string( m.loads ) + " loads are needed" );
				no_leak( afired, "loading " + name + " left a file open" );
				if ( !good )
				{
					check( threw, "error_missed", "loading " + name + " reported no error although " + why );
					probe( why.substr( 0, 5 ) == "cycle" ? "cycle reported" : why.find( "one root" ) != string::npos ? "not one root reported" : "bad file reported" );
					nontrivial();
				}
				else if ( threw )
				{
					check( fired > 0, attempt ? "retry_failed" : "spurious_error", "loading " + name + " reported an error although nothing failed: " + what );
					probe( "fault reported" );
					continue; // again without the fault
				}
				else
				{
					Tree got = tree_of( pn );
					check( got == want, fired ? "partial" : "expansion", "loading " + name + ( fired ? " under a fault" : "" ) + " gave a wrong expansion: " + diff( want, got ) );
					state( got.hash() );
					if ( m.loads > 1 ) { probe( "includes expanded" ); nontrivial(); }
					if ( vfs().cwd != 1 ) probe( "relative top file" );
				}
				break;
			}
		}
	}
}
