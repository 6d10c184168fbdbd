// C08: create_directories by racing tasks, with files and protected folders in the way and failing calls.
#include "common.hpp"
#include "flut/filesystem.hpp"
using namespace sim; using namespace scen;

const char* scen_id = "C08";
static const vector<string> comp = { "a", "b", "c d", "e.f", "deep", "a folder with quite a long name" };

static string gen_path( Rng& r, int maxdepth, int ncomp )
{
	string s; int d = (int)r.range( 1, maxdepth );
	for ( int i = 0; i < d; ++i ) s += "/" + comp[ r.below( ncomp ) ];
	return s;
}

void scen_gen( Rng& r, Plan& p, bool thorough )
{
	int tasks = r.chance( 0.2 ) ? 1 : (int)r.range( 2, thorough ? 6 : 5 );
	p.cfg[ "tasks" ] = tasks;
	FaultMix m;
	m.rate = r.chance( 0.5 ) ? 0 : r.unit() * 0.5;
	m.mkdir = r.chance( 0.7 ); m.stat = r.chance( 0.5 ); m.alloc = r.chance( 0.3 ); m.alloc_span = 10;
	int depth = (int)r.range( 1, 5 ), ncomp = (int)r.range( 1, (int)comp.size() );
	vector<string> pool;
	for ( int i = (int)r.range( 1, 4 ); i > 0; --i ) pool.push_back( gen_path( r, depth, ncomp ) );
	if ( r.chance( 0.04 ) ) { string q; int lim = (int)r.range( 5, 60 ); for ( int d = 0; d < lim; ++d ) q += "/" + ( r.chance( 0.2 ) ? string( r.range( 1, 90 ), 'n' ) : comp[ r.below( comp.size() ) ] ); pool.push_back( q ); } // long path, many levels
	// what is there before: have <kind 0 dir, 1 file, 2 protected dir> "path"
	for ( int i = r.chance( 0.5 ) ? 0 : (int)r.range( 1, 3 ); i > 0; --i ) p.add( "have", { r.chance( 0.6 ) ? 0 : (i64)r.range( 1, 2 ) }, { gen_path( r, depth, ncomp ) } );
	int n = (int)r.range( tasks, tasks * 3 );
	for ( int i = 0; i < n; ++i )
	{
		i64 t = i < tasks ? i : (i64)r.below( tasks );
		string q = r.chance( 0.8 ) ? r.pick( pool ) : gen_path( r, depth, ncomp );
		if ( r.chance( 0.05 ) ) { p.add( "outside", { t, (i64)r.below( 2 ) }, { q } ); continue; }
		// make <task> <spelling: absolute, relative, ./relative, double separator, separators at the end>
		auto& op = p.add( "make", { t, r.chance( 0.5 ) ? 0 : (i64)r.below( 6 ) }, { q } );
		add_faults( r, op, m );
	}
	if ( tasks > 1 ) p.sched = gen_sched( r, 200, 0.1 + r.unit() * 0.6, tasks ), gen_fine( r, p, true );
}

void scen_run( const Plan& p )
{
	int ntasks = (int)p.c( "tasks", 1 ); if ( ntasks < 1 ) ntasks = 1; if ( ntasks > 8 ) ntasks = 8;
	vfs().mkdirs( "/w" ); vfs().cwd = vfs().find( "/w" );
	std::set<string> had, files; // directories and files made by others than the calls
	auto outside_dir = [&]( const string& q ) { for ( string s = q; s != "/"; s = parent( s ) ) if ( vfs().type( s ) == t_file ) return; vfs().mkdirs( q ); };
	auto outside_file = [&]( const string& q ) { for ( string s = parent( q ); s != "/"; s = parent( s ) ) if ( vfs().type( s ) == t_file ) return; if ( vfs().type( q ) == t_none ) { vfs().put( q, "keep me" ); files.insert( q ); } };
	for ( auto& op : p.ops ) if ( op.kind == "have" )
	{
		string q = resolve( "/w" + op.str( 0 ) );
		if ( op.ix( 0, 3 ) == 1 ) outside_file( q );
		else { outside_dir( q ); if ( op.ix( 0, 3 ) == 2 ) if ( auto* n = vfs().node( q ) ) n->no_write = true; }
	}
	std::map< string, int > winners;
	auto blocked = [&]( const string& q ) {
		bool missing = false;
		for ( string s = q; ; s = parent( s ) )
		{
			Type t = vfs().type( s );
			if ( t == t_none ) missing = true;
			else if ( t != t_dir ) return true;
			else if ( missing && vfs().node( s )->no_write ) return true;
			if ( s == "/" ) break;
		}
		return false;
	};
	auto make = [&]( const Op& op, const std::vector<Fault>& faults, bool last ) {
		string rel = op.str( 0 ); while ( !rel.empty() && rel.back() == '/' ) rel.pop_back();
		if ( rel.empty() || rel[ 0 ] != '/' ) return;
		string full = resolve( "/w" + rel ), spell = "/w" + rel;
		switch ( op.ix( 1, 6 ) ) { case 1: spell = rel.substr( 1 ); break; case 2: spell = "." + rel; break; case 3: spell = "/w/" + rel; break; case 4: spell = "/w" + rel + "/"; break; case 5: spell = rel.substr( 1 ) + "//"; break; }
		flut::path fp( spell );
		size_t c0 = vfs().created.size();
		bool there = vfs().type( full ) != t_none;
		bool ok = false, threw = false; string what; i64 fired, afired;
		{
			CallScope c( faults );
			try { ok = flut::create_directories( fp ); } catch ( std::exception& e ) { Pause pz; threw = true; what = e.what(); }
			fired = c.fired(); afired = c.fired( c_alloc );
		}
		string at = spell + " (task " + std::to_string( task_id() ) + ")";
		ev( "make " + at + ( threw ? " threw" : ok ? " true" : " false" ) );
		check( !threw || afired, "exception", "creating " + at + " threw: " + what );
		bool made_last = false; int made = 0;
		for ( size_t i = c0; i < vfs().created.size(); ++i )
		{
			auto& e = vfs().created[ i ];
			if ( e.task != task_id() ) continue;
			++made;
			check( e.type == t_dir && is_prefix( e.path, full ), "wrong_entry", "creating " + at + " created " + e.path );
			if ( e.path == full ) made_last = true;
		}
		if ( ok && !threw )
		{
			check( made_last, "false_success", "creating " + at + " reported success but this call did not create the directory" );
			check( !there, "false_success", "creating " + at + " reported success but it was there before" );
			for ( string s = full; s != "/"; s = parent( s ) ) check( vfs().type( s ) == t_dir, "missing_part", "creating " + at + " reported success but " + s + " is no directory" );
			check( ++winners[ full ] == 1, "two_winners", at + " was reported as created twice" );
			probe( made > 1 ? "created with parents" : "created" );
		}
		else
		{
			check( !made_last, "false_failure", "creating " + at + " reported failure although it created the directory" );
			if ( there ) probe( "was there" ); else if ( vfs().type( full ) == t_dir ) probe( "lost the race" );
			if ( fired ) probe( "failed by a fault" );
		}
		if ( !fired && !threw && !blocked( full ) )
			for ( string s = full; s != "/"; s = parent( s ) ) check( vfs().type( s ) == t_dir, last ? "retry_incomplete" : "incomplete", "after creating " + at + " without a fault, " + s + " does not exist" );
		if ( blocked( full ) ) probe( "something in the way" );
	};
	vector< std::function< void() > > tasks;
	for ( int t = 0; t < ntasks; ++t ) tasks.push_back( [&, t]() {
		for ( auto& op : p.ops )
		{
			if ( op.kind == "have" || (int)op.ix( 0, ntasks ) != t ) continue;
			if ( op.kind == "outside" ) { string q = resolve( "/w" + op.str( 0 ) ); if ( op.i( 1 ) ) outside_file( q ); else outside_dir( q ); yield_point(); }
			else if ( op.kind == "make" ) make( op, op.f, false );
		}
	} );
	run_tasks( p, tasks );
	// faults have stopped: repeat every call
	for ( auto& op : p.ops ) if ( op.kind == "make" ) make( op, {}, true );
	check( vfs().removed.empty(), "removed", vfs().removed.empty() ? "" : vfs().removed[ 0 ].path + " was removed" );
	for ( auto& f : files ) { string d; check( vfs().get( f, d ) && d == "keep me", "replaced", f + " was changed" ); }
	state( vfs().hash() );
}
