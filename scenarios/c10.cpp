// C10: exists, file_exists, folder_exists, remove and current_path against the simulated disk, racing removers, failing calls.
#include "common.hpp"
#include "flut/filesystem.hpp"
using namespace sim; using namespace scen;

const char* scen_id = "C10";
static const vector<string> names = { "/w/f", "/w/g h", "/w/d/f", "/w/d", "/w/d/e", "/w/empty", "/w/sock", "/w/dev", "/w/chr", "/w/none", "/w/f/x", "/w/none/y", "/", "/w/deep/er/z", "/w/d/" + string( 140, 'q' ) + "/" + string( 150, 'r' ), "/w/deep", "/w", "/w/deep/er", "/w/empty/in", "/w/d/" + string( 140, 'q' ), "/w/d/a file with a name that is rather long" };

void scen_gen( Rng& r, Plan& p, bool thorough )
{
	int tasks = r.chance( 0.4 ) ? 1 : (int)r.range( 2, thorough ? 5 : 4 );
	p.cfg[ "tasks" ] = tasks;
	FaultMix m;
	m.rate = r.chance( 0.5 ) ? 0 : r.unit() * 0.5;
	m.stat = r.chance( 0.4 ); m.open = r.chance( 0.4 ); m.unlink = r.chance( 0.5 ); m.alloc = r.chance( 0.2 ); m.alloc_span = 8;
	int n = (int)r.range( 3, thorough ? 40 : 25 );
	i64 f0 = 0, q0 = 0, s0 = 0; double again = r.chance( 0.5 ) ? 0.6 : 0; // some runs stay with one entry
	for ( int i = 0; i < n; ++i )
	{
		i64 t = r.below( tasks ), f = i && r.chance( again ) ? f0 : r.chance( 0.6 ) ? (i64)r.below( 4 ) : (i64)r.below( names.size() );
		f0 = f;
		if ( !r.chance( again ) ) { q0 = r.below( 3 ); s0 = r.below( 2 ); }
		double k = r.unit();
		if ( k < 0.2 ) p.add( "put", { t, f, (i64)r.below( 7 ) } );
		else if ( k < 0.24 ) p.add( "gone", { t, f } );
		else if ( k < 0.28 ) p.add( "lock", { t, f, (i64)r.below( 3 ) } );
		else if ( k < 0.5 ) add_faults( r, p.add( "remove", { t, f, (i64)r.below( 2 ) } ), m );
		else if ( k < 0.9 ) add_faults( r, p.add( "ask", { t, f, q0, s0 } ), m );
		else if ( tasks == 1 ) { static const i64 dirs[] = { 3, 4, 5, 12, 16, 17, 18, 19, 20 }; int more = r.chance( 0.3 ) ? 3 : 1; while ( more-- ) p.add( "cd", { t, dirs[ r.below( 9 ) ], (i64)r.below( 2 ) } ); }
	}
	if ( tasks > 1 ) p.sched = gen_sched( r, 300, 0.1 + r.unit() * 0.6, tasks ), gen_fine( r, p, true );
}

static string relative( const string& full )
{
	string c = vfs().cwd_path();
	if ( c == "/" ) return full.size() > 1 ? full.substr( 1 ) : ".";
	if ( full == c ) return ".";
	if ( is_prefix( c, full ) ) return full.substr( c.size() + 1 );
	string o; for ( string s = c; s != "/" && !is_prefix( s, full ); s = parent( s ) ) o += "../";
	string s = c; while ( s != "/" && !is_prefix( s, full ) ) s = parent( s );
	string tail = full == s ? "" : s == "/" ? full.substr( 1 ) : full.substr( s.size() + 1 );
	o += tail; if ( !o.empty() && o.back() == '/' ) o.pop_back();
	return o;
}

void scen_run( const Plan& p )
{
	int ntasks = (int)p.c( "tasks", 1 ); if ( ntasks < 1 ) ntasks = 1; if ( ntasks > 8 ) ntasks = 8;
	vfs().mkdirs( "/w/d/e" ); vfs().mkdirs( "/w/empty" ); vfs().mkdirs( "/w/deep/er" );
	vfs().put( "/w/f", "one" ); vfs().put( "/w/g h", "" ); vfs().put( "/w/d/f", "three" ); vfs().put( "/w/sock", "", t_sock ); vfs().put( names.back(), "x" ); vfs().put( names[ 14 ], "y" ); vfs().put( "/w/dev", "", t_blk ); vfs().put( "/w/chr", "", t_chr );
	u64 changes = 0; // made by the harness
	auto version = [&] { return changes + vfs().removed.size() + vfs().created.size(); }; // to know if the answer can have been changing
	vector< std::function< void() > > tasks;
	for ( int t = 0; t < ntasks; ++t ) tasks.push_back( [&, t]() {
		for ( auto& op : p.ops )
		{
			if ( (int)op.ix( 0, ntasks ) != t ) continue;
			string full = names[ op.ix( 1, names.size() ) ];
			if ( op.kind == "put" )
			{
				static const Type ty[] = { t_file, t_file, t_dir, t_sock, t_blk, t_chr, t_file };
				Type want = ty[ op.ix( 2, 7 ) ];
				if ( full == "/" || vfs().type( full ) != t_none || vfs().type( parent( full ) ) != t_dir ) continue;
				if ( want == t_dir ) vfs().mkdirs( full ); else vfs().put( full, "new", want );
				++changes; yield_point();
			}
			else if ( op.kind == "gone" ) // somebody else removes it
			{
				auto* n = vfs().node( full );
				if ( full == "/" || !n || ( n->type == t_dir && ( !n->kids.empty() || vfs().cwd_path() == full ) ) ) continue;
				bool dir = n->type == t_dir; vfs().node( parent( full ) )->kids.erase( full.substr( full.rfind( '/' ) + 1 ) ); // the node stays for whoever has it open
				 ++changes; yield_point();
				if ( dir ) probe( "a directory went away" );
			}
			else if ( op.kind == "lock" ) { if ( full == "/" ) continue; if ( auto* n = vfs().node( full ) ) { n->no_read = op.ix( 2, 3 ) == 1; n->no_write = op.ix( 2, 3 ) == 2; ++changes; } }
			else if ( op.kind == "cd" )
			{
				if ( vfs().type( full ) != t_dir ) continue;
				flut::path fp( op.i( 2 ) ? relative( full ) : full ); string got;
				{ CallScope c( op ); flut::current_path( fp ); flut::path q = flut::current_path(); Pause pz; got = q.str(); }
				ev( "cd " + fp.str() );
				check( got == full, "current_path", "after changing to " + fp.str() + " the current path is " + got + " and not " + full );
				check( vfs().cwd_path() == full, "current_path", "changing to " + fp.str() + " led to " + vfs().cwd_path() );
				probe( "changed directory" ); nontrivial();
			}
			else if ( op.kind == "remove" )
			{
				flut::path fp( op.i( 2 ) ? relative( full ) : full );
				Type ty = vfs().type( full );
				if ( ty == t_dir ) continue; // files only
				size_t r0 = vfs().removed.size(); u64 v0 = version();
				auto* par = vfs().node( parent( full ) ); bool may = par && par->type == t_dir && !par->no_write;
				bool ok = false, threw = false; i64 fired, afired; string what;
				{
					CallScope c( op );
					try { ok = flut::remove( fp ); } catch ( std::exception& e ) { Pause pz; threw = true; what = e.what(); }
					fired = c.fired(); afired = c.fired( c_alloc );
				}
				bool mine = false; i64 total = 0;
				for ( size_t i = r0; i < vfs().removed.size(); ++i ) { auto& e = vfs().removed[ i ]; if ( e.task == t ) { ++total; mine = mine || e.path == full; } }
				ev( "remove " + fp.str() + ( threw ? " threw" : ok ? " true" : " false" ) );
				check( !threw || afired, "exception", "removing " + fp.str() + " threw: " + what );
				check( total == ( mine ? 1 : 0 ), "removed_other", "removing " + fp.str() + " removed something else" );
				check( ( ok && !threw ) == mine, mine ? "success_not_reported" : "false_success", "removing " + fp.str() + " reported " + ( ok ? "success" : "failure" ) + " but it was " + ( mine ? "" : "not " ) + "removed by this call" );
				if ( mine ) { check( version() == v0 + 1 ? vfs().type( full ) == t_none : true, "still_there", fp.str() + " is still there after its removal" ); probe( "removed" ); }
				else
				{
					if ( version() == v0 && vfs().removed.size() == r0 && ty != t_none ) check( vfs().type( full ) == ty, "lost", fp.str() + " is gone after a failed removal" );
					if ( version() == v0 && ty != t_none && may && !fired ) check( false, "spurious_failure", "removing " + fp.str() + " failed although nothing failed" );
					probe( ty == t_none ? "nothing to remove" : fired ? "removal failed by a fault" : !may ? "not permitted" : "lost the race" );
				}
			}
			else if ( op.kind == "ask" )
			{
				int q = (int)op.ix( 2, 3 );
				static const char* fn[] = { "exists", "file_exists", "folder_exists" };
				flut::path fp( op.i( 3 ) ? relative( full ) : full );
				u64 v0 = version(); size_t c0 = vfs().created.size(), r0 = vfs().removed.size();
				auto* nd = vfs().node( full ); Type ty = vfs().type( full );
				bool want = q == 0 ? ty != t_none : q == 2 ? ty == t_dir : ( ty != t_none && ty != t_dir && !nd->no_read && ty != t_sock );
				bool ok = false, threw = false; i64 fired, afired; string what; u64 h0 = vfs().hash();
				{
					CallScope c( op );
					try { ok = q == 0 ? flut::exists( fp ) : q == 1 ? flut::file_exists( fp ) : flut::folder_exists( fp ); } catch ( std::exception& e ) { Pause pz; threw = true; what = e.what(); }
					fired = c.fired(); afired = c.fired( c_alloc );
				}
				ev( string( fn[ q ] ) + " " + fp.str() + ( ok ? " true" : " false" ) );
				check( !threw || afired, "exception", string( fn[ q ] ) + " of " + fp.str() + " threw: " + what );
				if ( ntasks == 1 ) no_leak( afired, string( fn[ q ] ) + " left a file open" );
				for ( size_t i = c0; i < vfs().created.size(); ++i ) check( vfs().created[ i ].task != t, "query_changes", string( fn[ q ] ) + " of " + fp.str() + " created " + vfs().created[ i ].path );
				for ( size_t i = r0; i < vfs().removed.size(); ++i ) check( vfs().removed[ i ].task != t, "query_changes", string( fn[ q ] ) + " of " + fp.str() + " removed " + vfs().removed[ i ].path );
				if ( version() != v0 ) { probe( "asked during a change" ); continue; }
				check( vfs().hash() == h0, "query_changes", string( fn[ q ] ) + " of " + fp.str() + " changed the disk" );
				if ( threw ) continue;
				static const char* tn[] = { "nothing", "a file", "a directory", "a socket", "a block device", "a character device", "a fifo" };
				if ( fired ) check( !ok || want || ( q == 1 && ty == t_dir ), // not judged: whether it is a directory could not be found out
					 "false_true", string( fn[ q ] ) + " is true for " + fp.str() + ", " + tn[ ty ] + ", under a fault" );
				else check( ok == want, ok ? "false_true" : "false_false", string( fn[ q ] ) + " is " + ( ok ? "true" : "false" ) + " for " + fp.str() + ", which is " + tn[ ty ] + ( nd && nd->no_read ? " that cannot be read" : "" ) );
				probe( string( fn[ q ] ) + ( ok ? " true" : " false" ) );
				if ( ty > t_dir ) probe( "special file asked" );
			}
		}
	} );
	run_tasks( p, tasks );
	// of all removals of an entry only one can have succeeded: every success matched its own entry in the removal log above
	state( vfs().hash() );
}
