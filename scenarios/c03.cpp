// C03: loaders give the whole content or report an error; contract of the error object.
#define SCEN_PROP_NODE
#include "common.hpp"
#include "flut/prop_node_tools.hpp"
#include "flut/filesystem.hpp"
#include "flut/char_stream.hpp"
using namespace sim; using namespace scen;

const char* scen_id = "C03";
enum { k_text, k_prop, k_xml, k_ini, k_kinds };
static const vector<string> ext = { ".txt", ".prop", ".xml", ".ini" };
static const vector<string> bad_prop = { "a\n{\n\t1x = 3\n}\n", "a\n{\n\tb = 1\n\t=\n}\n", "a = 1\nb\n{\n\tc\n\t{\n\t\t= 2\n\t}\n}\n", "a\n{\n{\n}\n}\n", "a { \"\" }\n", "a { 1 }\n", "a = 1\nb { \"\" = 2 }\n" };
static const vector<string> bad_xml = { "<a>", "<a><b></a>", "a", "<a x=1></a>", "<a>text", "<", "<a", "<a b=\"c>" };
static const vector<string> bad_ini = { "novalue\n", "a=1\nxyz\nb=2\n" };

void scen_gen( Rng& r, Plan& p, bool thorough )
{
	p.cfg[ "io_seed" ] = r.chance( 0.6 ) ? (i64)( r.next() >> 2 ) : 0;
	FaultMix m;
	m.rate = r.chance( 0.15 ) ? 0 : 0.2 + r.unit() * 0.6;
	m.open = r.chance( 0.4 ); m.read = r.chance( 0.7 ); m.alloc = r.chance( 0.4 );
	m.alloc_span = r.chance( 0.5 ) ? 12 : 200;
	int n = (int)r.range( 2, thorough ? 16 : 9 );
	for ( int i = 0; i < n; ++i )
	{
		i64 kind = r.below( k_kinds ), f = r.below( 2 );
		if ( r.chance( 0.6 ) || i == 0 )
		{
			if ( r.chance( 0.15 ) ) p.add( "bad", { kind, f, (i64)r.below( 9 ) } );
			else if ( r.chance( 0.1 ) ) p.add( "gone", { kind, f } );
			else if ( kind == k_text )
			{
				string s = random_text( r, (int)r.below( 6 ), r.chance( 0.3 ) ? 30000 : 200 );
				if ( r.chance( 0.1 ) ) for ( auto& c : s ) if ( r.chance( 0.1 ) ) c = 0;
				p.add( "text", { f }, { s } );
			}
			else
			{
				p.add( "clear", {} );
				bool big = r.chance( 0.2 );
				int depth = 0;
				for ( size_t k = r.below( big ? 300 : 10 ); k > 0; --k )
				{
					string l = "k" + std::to_string( r.below( kind == k_ini ? 1000000 : 30 ) ), v = random_text( r, r.chance( 0.5 ) ? 0 : 5, r.chance( 0.1 ) ? 400 : 10 );
					gen_bulk( r, p.add( "node", { 0, depth, 0 }, { l, v } ), 0.01 );
					if ( kind != k_ini ) { if ( r.chance( 0.3 ) && depth < 5 ) ++depth; else if ( depth && r.chance( 0.4 ) ) --depth; }
				}
				p.add( "file", { kind, f } );
			}
		}
		if ( r.chance( 0.1 ) ) { p.add( "together", { (i64)r.below( 1000 ), (i64)r.range( 2, 4 ) } ); if ( p.sched.empty() ) { p.sched = gen_sched( r, 400, 0.1 + r.unit() * 0.6, 4 ); gen_fine( r, p ); } }
		// load <kind> <file> <function> <error object: 0 none, 1, 2>
		if ( r.chance( 0.05 ) ) f = 2 + r.below( 2 );
		auto& op = p.add( "load", { kind, f, (i64)r.below( 3 ), (i64)r.below( 3 ) } );
		add_faults( r, op, m );
		if ( !op.f.empty() && r.chance( 0.7 ) ) { Op again = op; again.f.clear(); p.ops.push_back( again ); }
	}
}

static string path_of( i64 kind, i64 f ) { return f == 3 ? "/w/missing" + ext[ kind ] : f == 2 ? "/w/folder" + ext[ kind ] : "/w/f" + std::to_string( f ) + ext[ kind ]; }

void scen_run( const Plan& p )
{
	vfs().mkdirs( "/w" );
	for ( int k = 0; k < k_kinds; ++k ) vfs().mkdirs( path_of( k, 2 ) );
	struct F { int st = 0; string text; Tree tree; }; // st: 0 missing, 1 good, 2 malformed
	F file[ k_kinds ][ 2 ];
	Tree cur;
	flut::error_code ecs[ 2 ];
	for ( auto& op : p.ops )
	{
		if ( op.kind == "clear" ) cur = Tree();
		else if ( op.kind == "node" ) apply_node( cur, op );
		else if ( op.kind == "text" ) { auto& f = file[ k_text ][ op.ix( 0, 2 ) ]; f.st = 1; f.text = op.str( 0 ); vfs().put( path_of( k_text, op.ix( 0, 2 ) ), f.text ); }
		else if ( op.kind == "file" )
		{
			i64 k = op.ix( 0, k_kinds ); F& f = file[ k ][ op.ix( 1, 2 ) ];
			string fn = path_of( k, op.ix( 1, 2 ) );
			f.st = 1;
			if ( k == k_text ) { f.text = "x"; vfs().put( fn, "x" ); }
			if ( k == k_prop ) { f.tree = cur; check( flut::save_prop( prop_of( cur ), flut::path( fn ) ), "save", "save failed" ); }
			if ( k == k_xml ) { f.tree = Tree(); Tree root = cur; root.value.clear(); f.tree.kids.emplace_back( "root", root ); flut::save_xml( prop_of( f.tree ), flut::path( fn ) ); }
			if ( k == k_ini )
			{
				f.tree = Tree(); std::set<string> seen; string text;
				for ( auto& n : cur.kids ) if ( seen.insert( n.first ).second ) { Tree t; t.value = n.second.value; f.tree.kids.emplace_back( n.first, t ); text += n.first + "=" + t.value + "\n"; }
				vfs().put( fn, text );
			}
		}
		else if ( op.kind == "bad" )
		{
			i64 k = op.ix( 0, k_kinds ); F& f = file[ k ][ op.ix( 1, 2 ) ];
			if ( k == k_text ) continue;
			auto& v = k == k_prop ? bad_prop : k == k_xml ? bad_xml : bad_ini;
			f.st = 2; vfs().put( path_of( k, op.ix( 1, 2 ) ), v[ op.ix( 2, v.size() ) ] );
		}
		else if ( op.kind == "gone" ) { i64 k = op.ix( 0, k_kinds ); file[ k ][ op.ix( 1, 2 ) ].st = 0; vfs().erase( path_of( k, op.ix( 1, 2 ) ) ); }
		else if ( op.kind == "together" )
		{
			// several tasks load intact files at the same time
			vector< std::pair< i64, i64 > > good;
			for ( i64 k = 0; k < k_kinds; ++k ) for ( i64 i = 0; i < 2; ++i ) if ( file[ k ][ i ].st == 1 ) good.emplace_back( k, i );
			if ( good.empty() ) continue;
			size_t n = op.ix( 1, 5 ); if ( n < 2 ) n = 2;
			vector< std::function< void() > > tasks;
			for ( size_t t = 0; t < n; ++t ) tasks.push_back( [&, t] {
				auto w = good[ ( op.ix( 0, 1000 ) + t * 7 ) % good.size() ]; F& f = file[ w.first ][ w.second ];
				string fn = path_of( w.first, w.second ); flut::path fpath( fn );
				try
				{
					if ( w.first == k_text ) { string s = flut::load_string( fpath ); check( s == f.text, "partial", "loading " + fn + " while other tasks load gave other bytes" ); }
					else
					{
						Tree g = tree_of( w.first == k_prop ? flut::load_prop( fpath ) : w.first == k_xml ? flut::load_xml( fpath ) : flut::load_ini( fpath ) );
						check( g == f.tree, "partial", "loading " + fn + " while other tasks load gave another tree: " + diff( f.tree, g ) );
					}
				}
				catch ( std::exception& e ) { fail( "spurious_error", "loading " + fn + " while other tasks load reported an error although nothing failed: " + e.what() ); }
			} );
			run_tasks( p, tasks );
			probe( "loads by several tasks" );
		}
		else if ( op.kind == "load" )
		{
			i64 k = op.ix( 0, k_kinds ), fi = op.ix( 1, 4 );
			string fn = path_of( k, fi );
			int fun = (int)op.ix( 2, 3 );
			flut::error_code* ec = op.ix( 3, 3 ) ? &ecs[ op.ix( 3, 3 ) - 1 ] : nullptr;
			if ( k == k_ini || ( ( k == k_prop || k == k_xml ) && fun == 2 ) || ( k == k_text && fun == 2 ) ) ec = nullptr; // no error argument
			bool stale = ec && ec->error();
			bool threw = false, std_exc = true; string what, text; Tree tree; i64 fired, afired;
			flut::path fpath( fn );
			flut::prop_node pn;
			{
				CallScope c( op );
				try
				{
					if ( k == k_text )
					{
						if ( fun == 0 ) text = flut::load_string( fpath, ec );
						else if ( fun == 1 ) { flut::char_stream cs = flut::load_char_stream( fpath, "", ec ); Pause pz; while ( cs.good() ) text += cs.getc(); }
						else { flut::char_stream cs( fpath, "" ); Pause pz; while ( cs.good() ) text += cs.getc(); }
					}
					else if ( k == k_ini ) pn = flut::load_ini( fpath );
					else if ( fun == 2 ) pn = flut::load_file( fpath );
					else if ( k == k_prop ) pn = flut::load_prop( fpath, ec );
					else pn = flut::load_xml( fpath, ec );
				}
				catch ( std::exception& e ) { Pause pz; threw = true; what = e.what(); }
				catch ( ... ) { Pause pz; threw = true; std_exc = false; }
				fired = c.fired(); afired = c.fired( c_alloc );
			}
			bool err = threw || ( ec && ec->error() );
			ev( string( "load " ) + ( threw ? "threw" : err ? "error" : "ok" ) );
			string at = fn + ( ec ? " with" : " without" ) + string( " error object" );
			check( std_exc, "exception_type", "an exception that is not a std::exception left the load of " + at );
			if ( ec ) check( !threw || afired > 0, "exception_despite_ec", "the load of " + at + " threw: " + what );
			bool good = fi < 2 && file[ k ][ fi ].st == 1;
			if ( fi >= 2 || file[ k ][ fi ].st != 1 )
				check( err, "bad_accepted", "loading " + at + ", which is " + ( fi == 2 ? "a folder" : fi == 3 || file[ k ][ fi ].st == 0 ? "missing" : "malformed" ) + ", reported no error" + ( stale ? " (error object had an error before)" : "" ) );
			if ( err )
			{
				check( fired > 0 || !good, "spurious_error", "loading " + at + ", an intact file, reported an error although nothing failed" + ( stale ? " (stale error object)" : "" ) + ": " + what + ( ec ? ec->message() : "" ) );
				if ( fired ) probe( "fault reported" ); else probe( "bad file reported" );
			}
			else
			{
				F& f = file[ k ][ fi ];
				if ( k == k_text )
				{
					string want = f.text;
					if ( fun ) { size_t b = 0; while ( b < want.size() && !want[ b ] ) ++b; want = want.substr( b ); } // leading NULs count as delimiters
					check( text == want, "partial", "loading " + at + " reported no error but gave " + std::to_string( text.size() ) + " of " + std::to_string( f.text.size() ) + " bytes" );
				}
				else { Tree g = tree_of( pn ); check( g == f.tree, "partial", "loading " + at + " reported no error but gave another tree: " + diff( f.tree, g ) ); }
				if ( fired ) probe( "fault without effect" );
				if ( stale ) probe( "error object cleared" );
			}
			if ( ec && !fired )
			{
				// the error object describes this call: the same call with a fresh one says the same
				flut::error_code fresh;
				{
					Pause pz;
					if ( k == k_text ) { if ( fun == 0 ) flut::load_string( fpath, &fresh ); else flut::load_char_stream( fpath, "", &fresh ); }
					else if ( k == k_prop ) flut::load_prop( fpath, &fresh );
					else flut::load_xml( fpath, &fresh );
				}
				check( fresh.error() == ec->error() && fresh.code() == ec->code() && fresh.message() == ec->message(), "stale_error", "after the load of " + at + " it says " + show( ec->message(), 80 ) + " where a fresh one says " + show( fresh.message(), 80 ) );
				if ( stale && err ) probe( "error replaced by the next" );
			}
			no_leak( afired, "a load left a file open" );
			state( hash_str( k * 16 + fi * 4 + err, vfs().data( fn ) ) + fired );
		}
	}
}
