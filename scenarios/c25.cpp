// C25: the debug writer stores its values when the program ends. Each run is a whole process: the
// values are written and the process ends in a forked child, on the simulated disk.
#include "common.hpp"
#include "flut/system/debug_storage.hpp"
#include <sstream>
#include <cstring>
#include <cmath>
#include <sys/prctl.h>
#include <sys/syscall.h>
#include <sys/wait.h>
#include <signal.h>
#include <unistd.h>
using namespace sim; using namespace scen;

const char* scen_id = "C25";

static const char* files[] = { "debug.txt", "/w/out.txt", "/w/missing/out.txt", "/w/folder", "/w/protected.txt", "sub/values.txt", "/w/long.txt" };
static const size_t nfiles = 7;
static const char* labels[] = { "a", "b", "time", "leg.x", "a rather long label of a value that is written for debugging", "c", "d", "e", "f", "g" };
static const size_t nlabels = 10;
static const float values[] = { 0.f, 1.f, -1.f, 0.1f, 1e-30f, 1e30f, 123456.f, 1234567.f, -0.00012345f, 3.1415927f, NAN, INFINITY, -INFINITY };
static const size_t nvalues = 13;

void scen_gen( Rng& r, Plan& p, bool thorough )
{
	p.cfg[ "io_seed" ] = r.chance( 0.5 ) ? (i64)( r.next() >> 2 ) : 0;
	int nl = (int)r.range( 1, nlabels ), n = r.chance( 0.06 ) ? 0 : r.chance( 0.04 ) ? (int)r.range( 1100, thorough ? 6000 : 2500 ) : r.chance( 0.2 ) ? (int)r.range( 100, thorough ? 2000 : 400 ) : (int)r.range( 1, 40 );
	bool rounds = r.chance( 0.5 ); double skip = r.unit() * 0.3;
	if ( r.chance( 0.7 ) ) p.add( "target", { (i64)r.below( nfiles ) } );
	for ( int i = 0; i < n; ++i )
	{
		if ( r.chance( 0.01 ) ) p.add( "target", { (i64)r.below( nfiles ) } );
		if ( rounds && r.chance( skip ) ) continue;
		p.add( "write", { rounds ? i % nl : (i64)r.below( nl ), (i64)( r.chance( 0.1 ) ? 10 + r.below( 3 ) : r.below( 10 ) ), r.chance( 0.3 ) ? r.range( -100000, 100000 ) : 0 } );
	}
	auto& op = p.add( "end", { r.chance( 0.7 ) ? 0 : (i64)r.below( 100 ), r.chance( 0.1 ) ? (i64)r.below( 300 ) : -1 } );
	double k = r.unit();
	if ( k < 0.12 ) op.f.push_back( Fault{ "open", 1, r.chance( 0.5 ) ? "EMFILE" : "EACCES", 0 } );
	else if ( k < 0.3 ) op.f.push_back( Fault{ "write", r.logrange( 6 ), r.chance( 0.5 ) ? "EIO" : "ENOSPC", 0 } );
	else if ( k < 0.36 ) op.f.push_back( Fault{ "close", 1, "EIO", 0 } );
}

static int g_pipe = -1; // only set in the child
static CallScope* g_scope = nullptr;

static void send( const void* d, size_t n )
{
	const char* c = (const char*)d;
	while ( n ) { ssize_t k = syscall( SYS_write, g_pipe, c, n ); if ( k <= 0 ) _exit( 98 ); c += k; n -= k; }
}
static void send_str( const string& s ) { u64 n = s.size(); send( &n, 8 ); send( s.data(), n ); }

// made before and so destroyed after every object of the library
struct AtEnd
{
	AtEnd() { vfs(); clk(); }
	~AtEnd()
	{
		if ( g_pipe < 0 ) return;
		Pause pz;
		i64 fired[ 4 ] = { g_scope->fired( c_open ), g_scope->fired( c_write ), g_scope->fired( c_close ), g_scope->fired() };
		send( fired, sizeof fired );
		for ( auto& f : vfs().list() ) { send_str( f ); send_str( vfs().data( f ) ); }
	}
};
static AtEnd at_end __attribute__( ( init_priority( 101 ) ) );

void scen_run( const Plan& p )
{
	vfs().mkdirs( "/w/folder" ); vfs().mkdirs( "/w/sub" );
	vfs().put( "/w/protected.txt", "keep" ); vfs().node( "/w/protected.txt" )->no_write = true;
	vfs().put( "/w/long.txt", string( 100000, 'x' ) );
	vfs().cwd = vfs().find( "/w" );
	std::map< string, string > before; for ( auto& f : vfs().list() ) before[ f ] = vfs().data( f );

	// what should be stored
	string target = "debug.txt"; vector<string> cols; vector< std::map< size_t, float > > rows; i64 code = 0, cap = -1; const Op* end = nullptr; static const Op none;
	for ( auto& op : p.ops )
	{
		if ( op.kind == "target" ) target = files[ op.ix( 0, nfiles ) ];
		else if ( op.kind == "write" )
		{
			string l = labels[ op.ix( 0, nlabels ) ]; float v = op.i( 2 ) ? op.i( 2 ) * 0.125f : values[ op.ix( 1, nvalues ) ];
			size_t c = std::find( cols.begin(), cols.end(), l ) - cols.begin(); if ( c == cols.size() ) cols.push_back( l );
			if ( rows.empty() || rows.back().count( c ) ) rows.emplace_back();
			rows.back()[ c ] = v;
		}
		else if ( op.kind == "end" ) { end = &op; code = op.i( 0 ) & 0x3f; cap = op.i( 1, -1 ); }
	}
	int fd[ 2 ]; check( syscall( SYS_pipe2, fd, 0 ) == 0, "harness", "no pipe" );
	pid_t pid = fork();
	if ( pid == 0 )
	{
		prctl( PR_SET_PDEATHSIG, SIGKILL );
		syscall( SYS_close, fd[ 0 ] ); g_pipe = fd[ 1 ];
		for ( auto& op : p.ops )
		{
			if ( op.kind == "target" ) flut::set_debug_output( files[ op.ix( 0, nfiles ) ] );
			else if ( op.kind == "write" ) flut::write_debug( labels[ op.ix( 0, nlabels ) ], op.i( 2 ) ? op.i( 2 ) * 0.125f : values[ op.ix( 1, nvalues ) ] );
		}
		if ( cap >= 0 ) vfs().st.capacity = cap;
		g_scope = new CallScope( end ? *end : none );
		exit( (int)code ); // runs the destructors of static objects with the faults of the last operation
	}
	syscall( SYS_close, fd[ 1 ] );
	string in; char b[ 65536 ]; ssize_t k;
	while ( ( k = syscall( SYS_read, fd[ 0 ], b, sizeof b ) ) > 0 || ( k < 0 && errno == EINTR ) ) if ( k > 0 ) in.append( b, k );
	syscall( SYS_close, fd[ 0 ] );
	int st = 0; while ( waitpid( pid, &st, 0 ) < 0 && errno == EINTR ) {}
	check( WIFEXITED( st ), "abnormal_end", "the program was ended by signal " + std::to_string( WTERMSIG( st ) ) + " instead of ending normally" );
	check( WEXITSTATUS( st ) == code, "abnormal_end", "the program ended with status " + std::to_string( WEXITSTATUS( st ) ) + " instead of " + std::to_string( code ) );
	size_t pos = 0; i64 fired[ 4 ] = {};
	check( in.size() >= sizeof fired, "abnormal_end", "the program did not reach its end" );
	memcpy( fired, in.data(), sizeof fired ); pos = sizeof fired;
	auto take = [&] { u64 n; memcpy( &n, in.data() + pos, 8 ); string s = in.substr( pos + 8, n ); pos += 8 + n; return s; };
	std::map< string, string > disk; while ( pos + 8 <= in.size() ) { string f = take(); disk[ f ] = take(); }
	if ( fired[ 0 ] ) note_fault( "open:failed" ); if ( fired[ 1 ] ) note_fault( "write:failed" ); if ( fired[ 2 ] ) note_fault( "close:failed" );
	string path = target[ 0 ] == '/' ? target : "/w/" + target;
	u64 h = 1; for ( auto& f : disk ) h = hash_str( hash_str( h, f.first ), f.second ); state( h );
	ev( "ended " + std::to_string( code ) + " faults " + std::to_string( fired[ 3 ] ) + " disk " + std::to_string( h ) );
	for ( auto& f : disk ) if ( f.first != path ) check( before.count( f.first ) && before[ f.first ] == f.second, "other_file", f.first + " was created or changed" );
	for ( auto& f : before ) check( disk.count( f.first ) != 0, "other_file", f.first + " was removed" );
	if ( rows.empty() ) { probe( "nothing written" ); check( disk == before, "file_without_values", "a file was created or changed although nothing was written" ); return; }
	nontrivial();
	bool writable = path != "/w/missing/out.txt" && path != "/w/folder" && path != "/w/protected.txt";
	if ( !writable ) { probe( "cannot be created" ); return; }
	size_t need = 0; { std::ostringstream o; for ( auto& c : cols ) need += c.size() + 1; need += rows.size() * cols.size() * 14; }
	if ( fired[ 3 ] || ( cap >= 0 && (size_t)cap < need ) ) { probe( "writing failed" ); return; }
	check( disk.count( path ) != 0, "no_file", "nothing was stored in " + path );
	// one header row and one row per round
	string text = disk[ path ]; vector< vector<string> > got; string cell;
	if ( !text.empty() ) got.emplace_back();
	for ( size_t i = 0; i < text.size(); ++i )
	{
		if ( text[ i ] == '\t' ) { got.back().push_back( cell ); cell.clear(); }
		else if ( text[ i ] == '\n' ) { got.back().push_back( cell ); cell.clear(); if ( i + 1 < text.size() ) got.emplace_back(); }
		else cell += text[ i ];
	}
	check( cell.empty() && !text.empty(), "incomplete", "the last row is not complete: " + show( cell ) );
	check( got[ 0 ] == cols, "header", "the header row is " + show( text.substr( 0, text.find( '\n' ) ) ) );
	check( got.size() == rows.size() + 1, "rows", std::to_string( got.size() - 1 ) + " rows were stored instead of " + std::to_string( rows.size() ) );
	for ( size_t r = 0; r < rows.size(); ++r )
	{
		check( got[ r + 1 ].size() == cols.size(), "columns", "row " + std::to_string( r ) + " has " + std::to_string( got[ r + 1 ].size() ) + " values instead of " + std::to_string( cols.size() ) );
		for ( auto& v : rows[ r ] )
		{
			float f = strtof( got[ r + 1 ][ v.first ].c_str(), nullptr );
			check( std::isnan( v.second ) ? std::isnan( f ) : std::isinf( v.second ) ? f == v.second : std::abs( f - v.second ) <= 1e-5f * std::abs( v.second ), "value", "row " + std::to_string( r ) + " value " + cols[ v.first ] + " is " + got[ r + 1 ][ v.first ] + " instead of " + std::to_string( v.second ) );
		}
	}
	probe( "stored" ); if ( rows.size() > 1 ) probe( "several rows" );
}
