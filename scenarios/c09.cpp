// C09: create_unique_folder by racing tasks, with interference and failing calls.
#include "common.hpp"
#include "flut/filesystem.hpp"
using namespace sim; using namespace scen;

const char* scen_id = "C09";
static const vector<string> base = { "/w/out", "/w/sub/run", "/w/my results", "/w/new/deep/x", "/w/out (1)", "/w/results of the optimisation of the second day", "/w/" + string( 120, 'l' ) + "/" + string( 130, 'm' ) + "/" + string( 90, 'n' ) };

void scen_gen( Rng& r, Plan& p, bool thorough )
{
	int tasks = r.chance( 0.25 ) ? 1 : (int)r.range( 2, thorough ? 6 : 5 );
	p.cfg[ "tasks" ] = tasks;
	p.cfg[ "locked" ] = r.chance( 0.05 );
	FaultMix m;
	m.rate = r.chance( 0.5 ) ? 0 : r.unit() * 0.5;
	m.mkdir = r.chance( 0.7 ); m.stat = r.chance( 0.6 ); m.alloc = r.chance( 0.3 ); m.alloc_span = 30;
	size_t nb = base.size(); i64 only = r.chance( 0.6 ) ? (i64)r.below( nb ) : -1; auto b = [&] { return only >= 0 ? only : (i64)r.below( nb ); };
	// have <base> <number> <kind: 0 dir, 1 file, 2 socket>
	for ( int i = r.chance( 0.4 ) ? 0 : (int)r.range( 1, 12 ); i > 0; --i ) p.add( "have", { b(), (i64)r.below( r.chance( 0.8 ) ? 6 : 15 ), r.chance( 0.7 ) ? 0 : (i64)r.range( 1, 2 ) } );
	if ( r.chance( 0.03 ) ) p.add( "many", { b(), r.chance( 0.5 ) ? r.range( 8, 40 ) : r.range( 40, 300 ) } ); // that many names are taken
	int n = (int)r.range( tasks, tasks * 3 );
	for ( int i = 0; i < n; ++i )
	{
		i64 t = i < tasks ? i : (i64)r.below( tasks );
		if ( r.chance( 0.15 ) ) { p.add( "outside", { t, b(), (i64)r.below( 6 ), r.chance( 0.8 ) ? 0 : (i64)r.range( 1, 2 ) } ); continue; }
		// get <task> <base> <attempts, 0: default> <relative>
		auto& op = p.add( "get", { t, b(), r.chance( 0.4 ) ? 0 : r.logrange( 20 ), (i64)r.chance( 0.2 ) } );
		add_faults( r, op, m );
		for ( auto& f : op.f ) if ( f.act.back() == '+' && op.n[ 2 ] == 0 && r.chance( 0.95 ) ) op.n[ 2 ] = r.logrange( 40 ); // a lasting fault uses up all attempts
	}
	if ( tasks > 1 ) p.sched = gen_sched( r, 250, 0.1 + r.unit() * 0.6, tasks ), gen_fine( r, p, true );
}

static string numbered( const string& b, i64 n ) { return n ? b + " (" + std::to_string( n ) + ")" : b; }

void scen_run( const Plan& p )
{
	int ntasks = (int)p.c( "tasks", 1 ); if ( ntasks < 1 ) ntasks = 1; if ( ntasks > 8 ) ntasks = 8;
	vfs().mkdirs( "/w/sub" ); vfs().cwd = vfs().find( "/w" );
	bool locked = p.c( "locked" ) != 0;
	i64 outside = 0; // entries made by others so far
	std::map< string, Type > kept;
	auto put = [&]( const string& q, i64 kind ) {
		if ( vfs().type( q ) != t_none || vfs().type( parent( q ) ) == t_file ) return;
		if ( kind == 0 ) vfs().mkdirs( q ); else vfs().put( q, kind == 1 ? "keep me" : "", kind == 1 ? t_file : t_sock );
		kept[ q ] = vfs().type( q );
		++outside;
	};
	for ( auto& op : p.ops ) if ( op.kind == "have" ) put( numbered( base[ op.ix( 0, base.size() ) ], (i64)op.ix( 1, 30 ) ), (i64)op.ix( 2, 3 ) );
	for ( auto& op : p.ops ) if ( op.kind == "many" ) { i64 m = std::min< i64 >( op.i( 1 ), 400 ); for ( i64 i = 0; i < m; ++i ) put( numbered( base[ op.ix( 0, base.size() ) ], i ), 0 ); if ( m > 50 ) probe( "many names taken" ); }
	if ( locked ) { vfs().node( "/w" )->no_write = true; probe( "protected folder" ); }
	std::set<string> given;
	i64 calls_open = 0, calls_started = 0;
	auto get = [&]( const Op& op, const std::vector<Fault>& faults, bool retry ) {
		const string b = base[ op.ix( 1, base.size() ) ];
		string spell = op.i( 3 ) ? b.substr( 3 ) : b;
		int attempts = (int)op.i( 2 ); if ( attempts < 0 ) attempts = 1; if ( attempts > 9999 ) attempts = 9999;
		if ( locked && ( attempts == 0 || attempts > 50 ) ) attempts = 50;
		flut::path fp( spell );
		size_t c0 = vfs().created.size(); i64 out0 = outside, started0 = ++calls_started; bool alone = calls_open == 0; ++calls_open;
		auto before = vfs().st.nodes;
		// lowest free name at the start
		string want; i64 limit = attempts ? attempts : 9999;
		for ( i64 i = 0; i < limit && i < 900; ++i ) if ( vfs().type( numbered( b, i ) ) == t_none ) { want = numbered( b, i ); break; }
		bool threw = false; string what, got; i64 fired, mkdirs;
		{
			CallScope c( faults );
			try { flut::path q = attempts ? flut::create_unique_folder( fp, attempts ) : flut::create_unique_folder( fp ); Pause pz; got = q.str(); }
			catch ( std::exception& e ) { Pause pz; threw = true; what = e.what(); }
			fired = c.fired(); mkdirs = c.count( c_mkdir );
		}
		--calls_open;
		alone = alone && calls_started == started0 && outside == out0;
		string at = spell + ", " + std::to_string( attempts ) + " attempts (task " + std::to_string( task_id() ) + ")";
		ev( "unique " + at + ( threw ? " error" : " " + got ) );
		if ( threw )
		{
			bool legit = fired > 0 || want.empty() || locked || !alone;
			check( legit, retry ? "retry_failed" : "spurious_error", "no unique folder for " + at + " although " + want + " was free: " + what );
			probe( fired ? "fault reported" : want.empty() ? "attempts used up" : locked ? "not permitted" : "lost every race" );
			if ( !fired && !alone && limit >= 900 && !locked ) fail( "gave_up", "no unique folder for " + at + " although far more attempts were allowed than names taken" );
			return;
		}
		string full = resolve( got[ 0 ] == '/' ? got : "/w/" + got );
		bool made = false;
		for ( size_t i = c0; i < vfs().created.size(); ++i ) if ( vfs().created[ i ].task == task_id() && vfs().created[ i ].path == full && vfs().created[ i ].type == t_dir ) made = true;
		check( made, "not_created_here", "the call for " + at + " returned " + got + ", which this call did not create" );
		check( vfs().type( full ) == t_dir, "missing", "the call for " + at + " returned " + got + ", which is no directory" );
		check( given.insert( full ).second, "given_twice", got + " was given to two callers" );
		bool named = false; for ( i64 i = 0; i < limit && i < 900; ++i ) if ( full == numbered( b, i ) ) named = true;
		check( named, "wrong_name", "the call for " + at + " returned " + got );
		if ( alone && !fired ) { check( full == want, "not_lowest", "the call for " + at + " returned " + got + " although " + want + " was free" ); probe( full == b ? "requested name" : "numbered name" ); }
		else if ( !fired ) probe( "created in a race" );
		else probe( "created despite a fault" );
	};
	vector< std::function< void() > > tasks;
	for ( int t = 0; t < ntasks; ++t ) tasks.push_back( [&, t]() {
		for ( auto& op : p.ops )
		{
			if ( op.kind == "have" || op.kind == "many" || (int)op.ix( 0, ntasks ) != t ) continue;
			if ( op.kind == "outside" ) { if ( !locked ) put( numbered( base[ op.ix( 1, base.size() ) ], (i64)op.ix( 2, 30 ) ), (i64)op.ix( 3, 3 ) ); yield_point(); }
			else if ( op.kind == "get" ) get( op, op.f, false );
		}
	} );
	run_tasks( p, tasks );
	for ( auto& op : p.ops ) if ( op.kind == "get" && !op.f.empty() ) { get( op, {}, true ); break; }
	check( vfs().removed.empty(), "removed", "an entry was removed" );
	for ( auto& k : kept ) check( vfs().type( k.first ) == k.second, "replaced", k.first + " was replaced" );
	state( vfs().hash() );
}
