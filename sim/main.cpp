// Driver of a scenario binary: run seeds, print a plan, execute a plan.
#include "sim_internal.hpp"
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <cerrno>
#include <map>
#include <string>
#include <unordered_set>
#include <unistd.h>

extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=86:handle_abort=1:detect_odr_violation=0:detect_stack_use_after_return=0:allocator_may_return_null=1:print_summary=1:symbolize=1"; }

using namespace sim;

static int g_out = 1;
static u64 g_index = 0;
static volatile u64* g_status = nullptr;

static void raw( const char* s ) { syscall( SYS_write, g_out, s, strlen( s ) ); }

namespace sim
{
	void die_violation( const char* cls, const char* msg )
	{
		char b[ 1024 ];
		snprintf( b, sizeof b, "V %llu %s | %s\n", (unsigned long long)g_index, cls, msg );
		raw( b );
		_exit( 9 );
	}
}

static void on_prof( int ) { die_violation( "hang", "the run used more than its cpu time limit: endless loop" ); }
static void on_alarm( int ) { die_violation( "deadlock", "the run did not end: blocked" ); }

static void watchdog( int cpu_s, int wall_s )
{
	struct itimerval t = {};
	t.it_value.tv_sec = cpu_s;
	setitimer( ITIMER_PROF, &t, nullptr );
	t.it_value.tv_sec = wall_s;
	setitimer( ITIMER_REAL, &t, nullptr );
}

struct Result { bool ok = true; std::string cls, msg; u64 trace = 0; bool nontriv = false; };

static Result execute( const Plan& p )
{
	Result res;
	g_run.trace = 1; g_run.events = g_run.yields = 0; g_run.nontriv = false; g_run.log.clear();
	i64 f0 = g_run.fault_total;
	vfs().reset();
	clk() = [] { Clock c; c.covered = clk().covered; return c; }();
	clk().mono = 1000000000000LL + p.c( "boot_ns" );
	clk().real = p.c( "epoch_ns", 1500000000000000000LL );
	clk().tick = p.c( "tick_ns", 0 );
	vfs_config( (u64)p.c( "io_seed", 0 ) );
	static int cpu_s = getenv( "SIM_CPU" ) ? atoi( getenv( "SIM_CPU" ) ) : 15;
	watchdog( cpu_s, 150 );
	g_active = true;
	try { scen_run( p ); }
	catch ( Violation& v ) { res.ok = false; res.cls = v.cls; res.msg = v.msg; }
	catch ( std::exception& e ) { res.ok = false; res.cls = "unexpected_exception"; res.msg = std::string( "exception where none is allowed: " ) + e.what(); }
	catch ( ... ) { res.ok = false; res.cls = "unexpected_exception"; res.msg = "unknown exception where none is allowed"; }
	g_active = false;
	watchdog( 0, 0 );
	clk().on_read = nullptr;
	res.trace = mix( g_run.trace + (u64)g_run.events );
	res.nontriv = g_run.nontriv;
	(void)f0;
	for ( auto& c : res.msg ) if ( c == '\n' || c == '\r' ) c = ' ';
	return res;
}

static std::string read_file( const char* f )
{
	std::string s; char b[ 65536 ]; ssize_t n;
	int fd = (int)syscall( SYS_open, f, O_RDONLY );
	if ( fd < 0 ) { fprintf( stderr, "cannot open %s\n", f ); exit( 3 ); }
	while ( ( n = syscall( SYS_read, fd, b, sizeof b ) ) > 0 ) s.append( b, n );
	syscall( SYS_close, fd );
	return s;
}

static Plan gen( u64 base, u64 index, bool thorough )
{
	u64 seed = mix( mix( hash_str( base, scen_id ) ) + index );
	Rng r( seed );
	Plan p;
	p.seed = seed;
	scen_gen( r, p, thorough );
	return p;
}

// what one run says about itself, sent to the worker that forked it
static std::string report( const Result& r )
{
	std::string o;
	char b[ 64 ];
	snprintf( b, sizeof b, "R %016llx %d\n", (unsigned long long)r.trace, r.nontriv );
	o += b;
	auto sum = [&]( const char* tag, long long v, const std::string& name ) { if ( v ) o += std::string( tag ) + " " + std::to_string( v ) + " " + name + "\n"; };
	for ( auto& p : g_run.probes ) sum( "P", p.second, p.first );
	for ( auto& p : g_run.faults ) sum( "F", p.second, p.first );
	for ( int c = 0; c < c_count; ++c ) sum( "C", g_run.calls[ c ], call_name( c ) );
	sum( "N", clk().covered, "simulated_ns" );
	sum( "N", clk().reads, "last_clock_reads" );
	sum( "N", g_run.preemptions, "preemptions" );
	for ( u64 h : g_run.states ) { snprintf( b, sizeof b, "S %llx\n", (unsigned long long)h ); o += b; }
	for ( u64 h : g_run.inter ) { snprintf( b, sizeof b, "I %llx\n", (unsigned long long)h ); o += b; }
	return o;
}

struct Totals
{
	std::map<std::string, long long> sums;
	std::unordered_set<u64> sets[ 2 ];
	std::string add( const std::string& in )
	{
		std::string r;
		for ( size_t a = 0; a < in.size(); )
		{
			size_t e = in.find( '\n', a );
			if ( e == std::string::npos ) break;
			char t = in[ a ];
			if ( t == 'R' ) r = in.substr( a + 2, e - a - 2 );
			else if ( t == 'S' || t == 'I' ) sets[ t == 'I' ].insert( strtoull( in.c_str() + a + 2, nullptr, 16 ) );
			else
			{
				char* q; long long v = strtoll( in.c_str() + a + 2, &q, 10 );
				size_t n = q - in.c_str();
				sums[ std::string( 1, t ) + in.substr( n, e - n ) ] += v;
			}
			a = e + 1;
		}
		return r;
	}
};

int main( int argc, char** argv )
{
	// addresses must not differ between runs
	int per = personality( 0xffffffff );
	if ( per >= 0 && !( per & ADDR_NO_RANDOMIZE ) && !getenv( "SIM_REEXEC" ) )
	{
		personality( per | ADDR_NO_RANDOMIZE );
		setenv( "SIM_REEXEC", "1", 1 );
		execv( "/proc/self/exe", argv );
	}
	signal( SIGPROF, on_prof );
	signal( SIGALRM, on_alarm );
	std::string cmd = argc > 1 ? argv[ 1 ] : "";
	auto num = [&]( int i ) { return i < argc ? strtoull( argv[ i ], nullptr, 10 ) : 0ull; };
	if ( cmd == "gen" )
	{
		fputs( gen( num( 2 ), num( 3 ), num( 4 ) ).text( scen_id ).c_str(), stdout );
		return 0;
	}
	if ( cmd == "exec" )
	{
		Plan p = Plan::parse( read_file( argv[ 2 ] ) );
		g_run.verbose = argc > 3 && !strcmp( argv[ 3 ], "-v" );
		Result r = execute( p );
		for ( auto& l : g_run.log ) printf( "%s\n", l.c_str() );
		fflush( stdout );
		char b[ 64 ];
		if ( r.ok ) { snprintf( b, sizeof b, "R 0 ok %016llx %d\n", (unsigned long long)r.trace, r.nontriv ); raw( b ); return 0; }
		raw( ( "V 0 " + r.cls + " | " + r.msg + "\n" ).c_str() );
		snprintf( b, sizeof b, "T %016llx\n", (unsigned long long)r.trace ); raw( b );
		return 9;
	}
	if ( cmd == "run" )
	{
		// run <base> <start> <stride> <end> <thorough> <outfile> <statusfile> <wall limit s>
		u64 base = num( 2 ), start = num( 3 ), stride = num( 4 ), end = num( 5 ); bool thorough = num( 6 );
		g_out = (int)syscall( SYS_open, argv[ 7 ], O_CREAT | O_WRONLY | O_TRUNC | O_APPEND, 0644 );
		int sfd = (int)syscall( SYS_open, argv[ 8 ], O_CREAT | O_RDWR | O_TRUNC, 0644 );
		if ( syscall( SYS_ftruncate, sfd, 8 ) ) return 3;
		g_status = (volatile u64*)mmap( nullptr, 8, PROT_READ | PROT_WRITE, MAP_SHARED, sfd, 0 );
		double limit = num( 9 );
		auto t0 = std::chrono::steady_clock::now();
		Totals tot;
		std::string buf;
		bool cut = false;
		for ( u64 i = start; i < end; i += stride )
		{
			if ( limit > 0 && std::chrono::duration<double>( std::chrono::steady_clock::now() - t0 ).count() > limit ) { cut = true; break; }
			g_index = i; *g_status = i + 1;
			// every run in a process of its own, forked from this one that never ran anything:
			// static and thread-local state of the code under test is fresh, as in a replay
			int fds[ 2 ];
			if ( syscall( SYS_pipe, fds ) ) return 3;
			pid_t pid = fork();
			if ( pid < 0 ) { syscall( SYS_close, fds[ 0 ] ); syscall( SYS_close, fds[ 1 ] ); raw( buf.c_str() ); return 3; }
			if ( pid == 0 )
			{
				syscall( SYS_close, fds[ 0 ] );
				Result r = execute( gen( base, i, thorough ) );
				if ( !r.ok ) { raw( ( "V " + std::to_string( i ) + " " + r.cls + " | " + r.msg + "\n" ).c_str() ); _exit( 9 ); }
				std::string o = report( r );
				for ( size_t n = 0; n < o.size(); )
				{
					ssize_t w = syscall( SYS_write, fds[ 1 ], o.data() + n, o.size() - n );
					if ( w <= 0 ) _exit( 3 );
					n += w;
				}
				_exit( 0 );
			}
			syscall( SYS_close, fds[ 1 ] );
			std::string in; char rb[ 65536 ]; ssize_t n;
			while ( ( n = syscall( SYS_read, fds[ 0 ], rb, sizeof rb ) ) != 0 ) { if ( n > 0 ) in.append( rb, n ); else if ( errno != EINTR ) break; }
			syscall( SYS_close, fds[ 0 ] );
			int ws = 0;
			while ( syscall( SYS_wait4, pid, &ws, 0, nullptr ) < 0 && errno == EINTR );
			if ( !WIFEXITED( ws ) || WEXITSTATUS( ws ) != 0 )
			{
				raw( buf.c_str() );
				_exit( WIFEXITED( ws ) ? WEXITSTATUS( ws ) : 128 + WTERMSIG( ws ) );
			}
			std::string rl = tot.add( in );
			buf += "R " + std::to_string( i ) + " ok " + rl + "\n";
			if ( buf.size() > 60000 ) { raw( buf.c_str() ); buf.clear(); }
		}
		for ( auto& p : tot.sums ) { auto sp = p.first.find( ' ' ); buf += p.first.substr( 0, sp ) + " " + std::to_string( p.second ) + p.first.substr( sp ) + "\n"; }
		raw( buf.c_str() );
		buf.clear();
		for ( int k = 0; k < 2; ++k ) for ( u64 h : tot.sets[ k ] ) { char b[ 32 ]; snprintf( b, sizeof b, "%s %llx\n", k ? "I" : "S", (unsigned long long)h ); buf += b; if ( buf.size() > 60000 ) { raw( buf.c_str() ); buf.clear(); } }
		buf += cut ? "E cut\n" : "E done\n";
		raw( buf.c_str() );
		_exit( 0 );
	}
	fprintf( stderr, "usage: %s gen base index thorough | exec plan [-v] | run base start stride end thorough out status limit\n", argv[ 0 ] );
	return 3;
}
