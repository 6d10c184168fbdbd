// Simulator core: interposed system calls, allocator, clock, scheduler. See sim.hpp.
#ifndef _GNU_SOURCE
#define _GNU_SOURCE
#endif
#include "sim.hpp"
#include <algorithm>
#include <atomic>
#include <condition_variable>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fcntl.h>
#include <mutex>
#include <new>
#include <poll.h>
#include <pthread.h>
#include <sys/ioctl.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <sys/uio.h>
#include <sys/statfs.h>
#include <thread>
#include <time.h>
#include <unistd.h>
#include "sim_internal.hpp"

namespace sim
{
	static const char* names[] = { "open", "read", "write", "close", "stat", "mkdir", "unlink", "seek", "chdir", "getcwd", "sleep", "alloc", "user", "mut" };
	const char* call_name( int c ) { return names[ c ]; }

	u64 hash_bytes( u64 h, const void* p, size_t n )
	{
		const unsigned char* b = (const unsigned char*)p;
		for ( size_t i = 0; i < n; ++i )
			h = ( h ^ b[ i ] ) * 0x100000001b3ull;
		return mix( h );
	}

	// ---------------------------------------------------------------- per thread and per run state
	struct CallScope::Impl {
		const std::vector<Fault>* faults;
		i64 counts[ c_count ] = {};
		i64 fired_by[ c_count ] = {};
		i64 fired_all = 0;
		i64 bytes = 0; ///< allocated
		i64 work = 0; ///< functions entered
		int write_err = 0; ///< pending error after a partial write
		std::vector<i64> hits; ///< per fault
		bool cap = false;
		Impl* outer = nullptr;
	};

	static thread_local CallScope::Impl* tl_scope = nullptr;
	static thread_local int tl_pause = 0; ///< > 0: simulator or harness code
	static thread_local int tl_task = -1;

	RunState g_run;
	static std::recursive_mutex g_mx;
	bool g_active = false;

	struct In { In() { ++tl_pause; } ~In() { --tl_pause; } };

	Pause::Pause() { ++tl_pause; }
	Pause::~Pause() { --tl_pause; }

	void ev( const std::string& s )
	{
		In in; std::lock_guard<std::recursive_mutex> lk( g_mx );
		g_run.trace = hash_str( g_run.trace, s );
		++g_run.events;
		if ( g_run.verbose )
			g_run.log.push_back( ( tl_task >= 0 ? "[task " + std::to_string( tl_task ) + "] " : std::string() ) + s );
	}
	void probe( const std::string& name, i64 n ) { In in; std::lock_guard<std::recursive_mutex> lk( g_mx ); g_run.probes[ name ] += n; }
	void state( u64 h ) { In in; std::lock_guard<std::recursive_mutex> lk( g_mx ); if ( g_run.states.size() < g_run.max_states ) g_run.states.insert( h ); }
	void nontrivial() { g_run.nontriv = true; }
	void fail( const std::string& cls, const std::string& msg ) { In in; throw Violation{ cls, msg }; }
	i64 faults_fired() { return g_run.fault_total; }

	static void fault_fired( const std::string& what )
	{
		In in; std::lock_guard<std::recursive_mutex> lk( g_mx );
		g_run.faults[ what ] += 1;
		++g_run.fault_total;
		g_run.nontriv = true;
		ev( "fault " + what );
	}
	void note_fault( const std::string& what ) { fault_fired( what ); }

	std::string show( const std::string& s, size_t max )
	{
		In in;
		std::string r = "\"";
		for ( size_t i = 0; i < s.size() && i < max; ++i )
		{
			unsigned char c = s[ i ];
			if ( c == '\n' ) r += "\\n"; else if ( c == '\t' ) r += "\\t"; else if ( c == '"' ) r += "\\\""; else if ( c == '\\' ) r += "\\\\";
			else if ( c < 32 || c > 126 ) { char b[ 8 ]; snprintf( b, sizeof b, "\\x%02x", c ); r += b; }
			else r += (char)c;
		}
		r += "\"";
		if ( s.size() > max ) r += "...(" + std::to_string( s.size() ) + " bytes)";
		return r;
	}

	// ---------------------------------------------------------------- plan text
	static std::string enc( const std::string& s )
	{
		std::string r = "\"";
		for ( unsigned char c : s )
		{
			if ( c > 32 && c < 127 && c != '%' && c != '"' ) r += (char)c;
			else { char b[ 8 ]; snprintf( b, sizeof b, "%%%02x", c ); r += b; }
		}
		return r + "\"";
	}
	static std::string dec( const std::string& s )
	{
		std::string r;
		for ( size_t i = 1; i + 1 < s.size(); ++i )
		{
			if ( s[ i ] == '%' && i + 2 < s.size() ) { r += (char)strtol( s.substr( i + 1, 2 ).c_str(), nullptr, 16 ); i += 2; }
			else r += s[ i ];
		}
		return r;
	}
	std::string Plan::text( const std::string& id ) const
	{
		std::string t = "plan " + id + "\nseed " + std::to_string( seed ) + "\n";
		for ( auto& c : cfg ) t += "cfg " + c.first + " " + std::to_string( c.second ) + "\n";
		for ( auto& o : ops )
		{
			t += "op " + o.kind;
			for ( auto v : o.n ) t += " " + std::to_string( v );
			for ( auto& v : o.s ) t += " " + enc( v );
			t += "\n";
			for ( auto& f : o.f ) t += "fault " + f.call + " " + std::to_string( f.nth ) + " " + f.act + " " + std::to_string( f.arg ) + "\n";
		}
		if ( !sched.empty() ) { t += "sched"; for ( auto v : sched ) t += " " + std::to_string( v ); t += "\n"; }
		return t + "end\n";
	}
	Plan Plan::parse( const std::string& text )
	{
		Plan p;
		size_t pos = 0;
		while ( pos < text.size() )
		{
			size_t e = text.find( '\n', pos );
			if ( e == std::string::npos ) e = text.size();
			std::string line = text.substr( pos, e - pos );
			pos = e + 1;
			std::vector<std::string> w;
			size_t q = 0;
			while ( q < line.size() )
			{
				while ( q < line.size() && line[ q ] == ' ' ) ++q;
				size_t b = q;
				while ( q < line.size() && line[ q ] != ' ' ) ++q;
				if ( q > b ) w.push_back( line.substr( b, q - b ) );
			}
			if ( w.empty() || w[ 0 ][ 0 ] == '#' ) continue;
			if ( w[ 0 ] == "seed" ) p.seed = strtoull( w[ 1 ].c_str(), nullptr, 10 );
			else if ( w[ 0 ] == "cfg" ) p.cfg[ w[ 1 ] ] = strtoll( w[ 2 ].c_str(), nullptr, 10 );
			else if ( w[ 0 ] == "op" )
			{
				Op o; o.kind = w[ 1 ];
				for ( size_t i = 2; i < w.size(); ++i )
					if ( w[ i ][ 0 ] == '"' ) o.s.push_back( dec( w[ i ] ) ); else o.n.push_back( strtoll( w[ i ].c_str(), nullptr, 10 ) );
				p.ops.push_back( o );
			}
			else if ( w[ 0 ] == "fault" && !p.ops.empty() ) p.ops.back().f.push_back( Fault{ w[ 1 ], strtoll( w[ 2 ].c_str(), nullptr, 10 ), w[ 3 ], strtoll( w[ 4 ].c_str(), nullptr, 10 ) } );
			else if ( w[ 0 ] == "sched" ) for ( size_t i = 1; i < w.size(); ++i ) p.sched.push_back( strtoll( w[ i ].c_str(), nullptr, 10 ) );
		}
		return p;
	}

	// ---------------------------------------------------------------- faults
	static int errno_of( const std::string& act )
	{
		static const std::map< std::string, int > m = { { "EIO", EIO }, { "ENOSPC", ENOSPC }, { "EACCES", EACCES }, { "EMFILE", EMFILE }, { "ENOMEM", ENOMEM }, { "EROFS", EROFS }, { "EBUSY", EBUSY }, { "EDQUOT", EDQUOT }, { "EINTR", EINTR }, { "ENAMETOOLONG", ENAMETOOLONG } };
		auto it = m.find( act );
		return it == m.end() ? EIO : it->second;
	}

	/// counts a call and returns the fault that applies to it, if any
	static const Fault* match( int call )
	{
		auto* s = tl_scope;
		if ( !s || tl_pause > 1 ) return nullptr;
		In in;
		i64 n = ++s->counts[ call ];
		for ( size_t i = 0; i < s->faults->size(); ++i )
		{
			const Fault& f = ( *s->faults )[ i ];
			if ( f.call != names[ call ] ) continue;
			bool sticky = !f.act.empty() && f.act.back() == '+';
			if ( n == f.nth || ( sticky && n > f.nth ) )
			{
				++s->fired_all; ++s->fired_by[ call ];
				return &f;
			}
		}
		return nullptr;
	}
	static std::string act_of( const Fault* f ) { std::string a = f->act; if ( !a.empty() && a.back() == '+' ) a.pop_back(); return a; }

	CallScope::CallScope( const Op& op ) : CallScope( op.f ) {}
	CallScope::CallScope( const std::vector<Fault>& f )
	{
		In in;
		im = new Impl;
		im->faults = &f;
		im->outer = tl_scope;
		for ( auto& x : f )
			if ( x.call == "cap" ) { im->cap = true; vfs().st.capacity = x.arg; }
		tl_scope = im;
	}
	CallScope::~CallScope()
	{
		In in;
		tl_scope = im->outer;
		if ( im->cap ) vfs().st.capacity = -1;
		delete im;
	}
	i64 CallScope::count( int call ) const { return im->counts[ call ]; }
	i64 CallScope::bytes() const { return im->bytes; }
	i64 CallScope::work() const { return im->work; }
	i64 CallScope::fired() const { return im->fired_all; }
	i64 CallScope::fired( int call ) const { return im->fired_by[ call ]; }

	bool user_fault( i64* arg )
	{
		if ( !tl_scope ) return false;
		++tl_pause; const Fault* f = match( c_user ); --tl_pause;
		if ( !f ) return false;
		if ( arg ) *arg = f->arg;
		fault_fired( "user:" + act_of( f ) );
		return true;
	}

	// ---------------------------------------------------------------- allocator
	static i64 g_alloc_limit = 96LL << 20;
	/// returns true if this allocation must fail
	static bool alloc_hook( size_t n )
	{
		auto* s = tl_scope;
		if ( !s || tl_pause > 0 ) return false;
		s->bytes += (i64)n;
		++tl_pause;
		if ( s->bytes > g_alloc_limit )
			die_violation( "memory_budget", "one call allocated more than 96 MB: unbounded memory use" );
		const Fault* f = match( c_alloc );
		if ( f ) fault_fired( std::string( "alloc:" ) + ( f->act.back() == '+' ? "all-from-nth" : "nth" ) );
		--tl_pause;
		return f != nullptr;
	}

	// ---------------------------------------------------------------- scheduler
	struct Sched {
		bool on = false;
		std::mutex m; std::condition_variable cv[ 17 ]; // one per task, the last for the starter
		int current = -1;
		std::vector<char> done;
		size_t pos = 0;
		const Plan* plan = nullptr;
		u64 ihash = 0;
		bool has_violation = false; Violation v;
		i64 switches = 0;
	} g_sched;

	static i64 next_choice() { auto& s = g_sched; i64 c = s.pos < s.plan->sched.size() ? s.plan->sched[ s.pos ] : 0; ++s.pos; return c < 0 ? -c : c; }

	int task_id() { return tl_task; }

	static std::vector<int> not_done()
	{
		auto& s = g_sched;
		std::vector<int> others;
		int n = (int)s.done.size();
		for ( int k = 1; k < n; ++k ) { int t = ( tl_task + k ) % n; if ( !s.done[ t ] ) others.push_back( t ); }
		return others;
	}
	static void switch_to( std::unique_lock<std::mutex>& lk, int next )
	{
		auto& s = g_sched;
		s.ihash = mix( s.ihash * 31 + next + 1 );
		if ( ++g_run.yields > 2000000 ) { lk.unlock(); die_violation( "step_budget", "too many scheduling steps" ); }
		if ( next != tl_task )
		{
			s.current = next;
			s.cv[ next ].notify_one();
			int me = tl_task;
			s.cv[ me ].wait( lk, [&] { return s.current == me; } );
		}
	}

	void yield_point()
	{
		if ( tl_task < 0 || !g_sched.on ) return;
		In in;
		auto& s = g_sched;
		std::unique_lock<std::mutex> lk( s.m );
		auto others = not_done();
		int next = tl_task;
		i64 c = next_choice();
		if ( c > 0 && !others.empty() ) { next = others[ ( c - 1 ) % others.size() ]; ++s.switches; g_run.preemptions++; g_run.nontriv = true; }
		switch_to( lk, next );
	}

	/// preemption inside the program's own code (function entry, allocation): the
	/// place follows from the run's fine_seed, the rate from fine_bits
	static u64 g_fine_seed = 0, g_fine_mask = 0, g_fine_n = 0;
	static i64 g_fine_left = 0;
	static bool g_fine_scoped = false; ///< inside call scopes only
	static void fine_yield()
	{
		if ( !g_fine_seed || tl_task < 0 || tl_pause > 0 || !g_sched.on || ( g_fine_scoped && !tl_scope ) ) return;
		u64 h = mix( g_fine_seed + ++g_fine_n );
		if ( h & g_fine_mask ) return;
		// thousands of preemptions are enough for one run: from then on they get rare
		if ( g_fine_left <= 0 ) return;
		if ( --g_fine_left < 2000 ) g_fine_mask |= 1023;
		In in;
		auto& s = g_sched;
		std::unique_lock<std::mutex> lk( s.m );
		auto others = not_done();
		if ( others.empty() ) return;
		++s.switches; g_run.preemptions++; g_run.nontriv = true;
		switch_to( lk, others[ ( h >> 40 ) % others.size() ] );
	}
	/// the task cannot go on before another one has done something
	static void blocked_yield( i64& spins, const char* what )
	{
		In in;
		auto& s = g_sched;
		std::unique_lock<std::mutex> lk( s.m );
		auto others = not_done();
		if ( others.empty() || ++spins > 20000 ) { lk.unlock(); die_violation( "deadlock", what ); }
		switch_to( lk, others[ 0 ] ); // round robin
	}
	/// the task offers to let the others go on (a spinning wait): bounded by the step budget
	static void blocked_yield_soft()
	{
		In in;
		auto& s = g_sched;
		std::unique_lock<std::mutex> lk( s.m );
		auto others = not_done();
		if ( others.empty() ) { if ( ++g_run.yields > 2000000 ) { lk.unlock(); die_violation( "step_budget", "too many scheduling steps" ); } return; }
		switch_to( lk, others[ 0 ] );
	}
	static bool scheduled() { return tl_task >= 0 && tl_pause == 0 && g_sched.on; }

	void run_tasks( const Plan& p, const std::vector< std::function< void() > >& tasks )
	{
		In in;
		if ( tasks.empty() ) return;
		if ( tasks.size() > 16 ) { fprintf( stderr, "too many tasks\n" ); abort(); }
		auto& s = g_sched;
		s.done.assign( tasks.size(), 0 );
		s.plan = &p;
		s.pos = 0; s.ihash = 0; s.has_violation = false; s.current = -1; s.switches = 0;
		g_fine_seed = (u64)p.c( "fine_seed" ); g_fine_mask = ( 1ull << ( p.c( "fine_bits" ) & 31 ) ) - 1; g_fine_n = 0; g_fine_left = 6000; g_fine_scoped = p.c( "fine_scoped" ) != 0;
		std::vector<std::thread> th;
		for ( size_t i = 0; i < tasks.size(); ++i )
		{
			th.emplace_back( [&, i]() {
				tl_task = (int)i;
				{ In in; std::unique_lock<std::mutex> lk( s.m ); s.cv[ i ].wait( lk, [&] { return s.current == (int)i; } ); }
				try { tasks[ i ](); }
				catch ( Violation& v ) { if ( !s.has_violation ) { s.has_violation = true; s.v = v; } }
				catch ( std::exception& e ) { if ( !s.has_violation ) { s.has_violation = true; s.v = Violation{ "unexpected_exception", std::string( "a task ended with an exception: " ) + e.what() }; } }
				catch ( ... ) { if ( !s.has_violation ) { s.has_violation = true; s.v = Violation{ "unexpected_exception", "a task ended with an unknown exception" }; } }
				++tl_pause;
				std::unique_lock<std::mutex> lk( s.m );
				s.done[ i ] = 1;
				std::vector<int> rest;
				for ( size_t k = 1; k < tasks.size(); ++k ) { int t = ( i + k ) % tasks.size(); if ( !s.done[ t ] ) rest.push_back( t ); }
				s.current = rest.empty() ? -2 : rest[ next_choice() % rest.size() ];
				s.ihash = mix( s.ihash * 31 + 100 + s.current );
				s.cv[ s.current < 0 ? 16 : s.current ].notify_one();
				--tl_pause;
				tl_task = -1;
			} );
		}
		{
			std::unique_lock<std::mutex> lk( s.m );
			s.on = true;
			s.current = (int)( next_choice() % tasks.size() );
			s.ihash = mix( s.current );
			s.cv[ s.current ].notify_one();
			s.cv[ 16 ].wait( lk, [&] { return s.current == -2; } );
		}
		for ( auto& t : th ) t.join();
		s.on = false;
		if ( g_run.inter.size() < g_run.max_states ) g_run.inter.insert( s.ihash );
		ev( "interleaving " + std::to_string( s.ihash ) );
		if ( s.has_violation ) throw s.v;
	}

	void foreign_thread( const std::function< void() >& f )
	{
		In in;
		std::exception_ptr ep; bool viol = false; Violation v;
		std::thread t( [&] { try { f(); } catch ( Violation& x ) { viol = true; v = x; } catch ( ... ) { ep = std::current_exception(); } } );
		t.join();
		if ( viol ) throw v;
		if ( ep ) std::rethrow_exception( ep );
	}

	// ---------------------------------------------------------------- clock
	Clock& clk() { static Clock c; return c; }

	static i64 read_clock( int id )
	{
		In in; std::lock_guard<std::recursive_mutex> lk( g_mx );
		auto& c = clk();
		++c.reads;
		if ( c.on_read && tl_pause <= 1 ) c.on_read();
		c.advance( c.tick );
		i64 t;
		switch ( id )
		{
		case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: case CLOCK_TAI: t = c.real; break;
		case CLOCK_PROCESS_CPUTIME_ID: case CLOCK_THREAD_CPUTIME_ID: t = c.cpu; break;
		default: t = c.mono;
		}
		return t;
	}

	/// returns 0, or EINTR with the remaining time
	static int do_sleep( i64 ns, i64& rem )
	{
		yield_point();
		In in; std::lock_guard<std::recursive_mutex> lk( g_mx );
		auto& c = clk();
		rem = 0;
		const Fault* f = match( c_sleep );
		if ( ns < 0 ) ns = 0;
		if ( f && act_of( f ) == "EINTR" )
		{
			i64 done = ns > 0 ? (i64)( (u64)f->arg % (u64)( ns + 1 ) ) : 0;
			if ( done == ns && ns > 0 ) done = ns - 1;
			c.advance( done, false ); c.slept += done;
			rem = ns - done;
			fault_fired( "sleep:EINTR" );
			return EINTR;
		}
		if ( f && act_of( f ) == "jump" ) { c.jump( f->arg ); fault_fired( "clock:jump-during-sleep" ); }
		if ( f && act_of( f ) == "late" ) { c.advance( f->arg < 0 ? -f->arg : f->arg, false ); fault_fired( "sleep:late-wakeup" ); }
		c.advance( ns, false ); c.slept += ns;
		ev( "sleep " + std::to_string( ns ) );
		return 0;
	}

	// ---------------------------------------------------------------- virtual file system
	Vfs& vfs() { static Vfs v; return v; }

	static const int fd_base = 100000;
	struct OpenFile { int ino; i64 pos; bool rd, wr, app; FILE* file; bool is_stdio; };
	static std::map< int, OpenFile > g_fds;
	static std::map< FILE*, int > g_files;
	static int g_next_fd = fd_base;
	static Rng g_io( 0 );
	static bool g_io_on = false;
	static double g_io_short = 0, g_io_eintr = 0;
	static int g_eintr_run = 0;

	void vfs_config( u64 io_seed )
	{
		g_io_on = io_seed != 0;
		g_io = Rng( mix( io_seed ) );
		g_io_short = g_io_on ? ( g_io.unit() * 0.9 ) : 0;
		g_io_eintr = g_io_on ? ( g_io.unit() * 0.4 ) : 0;
		g_eintr_run = 0;
	}

	void Vfs::reset()
	{
		In in;
		st = VfsState();
		st.nodes[ 1 ].type = t_dir;
		cwd = 1; seq = 0; created.clear(); removed.clear(); calls.clear(); crashed = false; crash_state = VfsState();
		g_fds.clear(); g_files.clear(); g_next_fd = fd_base;
	}
	int Vfs::open_files() const { return (int)g_fds.size(); }

	/// resolve; parent and last name are set if only the last part is missing
	static int lookup( const VfsState& st, int cwd, const std::string& path, int* parent, std::string* last, int* err, bool* want_dir )
	{
		*err = 0; *parent = 0;
		if ( want_dir ) *want_dir = !path.empty() && path.back() == '/';
		if ( path.empty() ) { *err = ENOENT; return 0; }
		if ( path.size() >= 4096 ) { *err = ENAMETOOLONG; return 0; }
		int cur = path[ 0 ] == '/' ? 1 : cwd;
		std::vector<int> up; // for ..
		size_t p = 0;
		std::vector<std::string> parts;
		while ( p < path.size() )
		{
			size_t e = path.find( '/', p );
			if ( e == std::string::npos ) e = path.size();
			if ( e > p ) parts.push_back( path.substr( p, e - p ) );
			p = e + 1;
		}
		auto parent_of = [&]( int ino ) { for ( auto& n : st.nodes ) for ( auto& k : n.second.kids ) if ( k.second == ino ) return n.first; return 1; };
		*last = "";
		for ( size_t i = 0; i < parts.size(); ++i )
		{
			auto it = st.nodes.find( cur );
			if ( it == st.nodes.end() ) { *err = ENOENT; return 0; }
			if ( it->second.type != t_dir ) { *err = ENOTDIR; return 0; }
			if ( parts[ i ].size() > 255 ) { *err = ENAMETOOLONG; return 0; }
			if ( parts[ i ] == "." ) { *last = "."; continue; }
			if ( parts[ i ] == ".." ) { cur = cur == 1 ? 1 : parent_of( cur ); *last = ".."; continue; }
			*parent = cur; *last = parts[ i ];
			auto k = it->second.kids.find( parts[ i ] );
			if ( k == it->second.kids.end() )
			{
				*err = ENOENT;
				if ( i + 1 < parts.size() ) *parent = 0;
				return 0;
			}
			cur = k->second;
		}
		if ( !path.empty() && path.back() == '/' )
		{
			auto it = st.nodes.find( cur );
			if ( it != st.nodes.end() && it->second.type != t_dir ) { *err = ENOTDIR; return 0; }
		}
		return cur;
	}
	int Vfs::find( const std::string& path ) const { In in; int par, err; std::string last; return lookup( st, cwd, path, &par, &last, &err, nullptr ); }
	Type Vfs::type( const std::string& path ) const { int i = find( path ); return i ? st.nodes.at( i ).type : t_none; }
	bool Vfs::get( const std::string& path, std::string& out ) const { In in; int i = find( path ); if ( !i || st.nodes.at( i ).type != t_file ) return false; out = st.nodes.at( i ).data; return true; }
	std::string Vfs::data( const std::string& path ) const { std::string s; get( path, s ); return s; }
	std::string Vfs::path_of( int ino ) const
	{
		In in;
		if ( ino == 1 ) return "/";
		for ( auto& n : st.nodes )
			for ( auto& k : n.second.kids )
				if ( k.second == ino ) { std::string p = path_of( n.first ); return p == "/" ? p + k.first : p + "/" + k.first; }
		return "?";
	}
	int Vfs::put( const std::string& path, const std::string& data, Type t )
	{
		In in;
		auto s = path.find_last_of( '/' );
		if ( s != std::string::npos && s > 0 ) mkdirs( path.substr( 0, s ) );
		int par, err; std::string last;
		int i = lookup( st, cwd, path, &par, &last, &err, nullptr );
		if ( !i )
		{
			if ( !par ) return 0;
			i = st.next++;
			st.nodes[ par ].kids[ last ] = i;
		}
		auto& n = st.nodes[ i ];
		n.type = t; n.data = data; n.kids.clear();
		return i;
	}
	void Vfs::mkdirs( const std::string& path )
	{
		In in;
		size_t p = 0;
		std::string cur;
		while ( p <= path.size() )
		{
			size_t e = path.find( '/', p );
			if ( e == std::string::npos ) e = path.size();
			cur = path.substr( 0, e );
			if ( !cur.empty() && !find( cur ) )
			{
				int par, err; std::string last;
				lookup( st, cwd, cur, &par, &last, &err, nullptr );
				if ( !par ) return;
				int i = st.next++;
				st.nodes[ i ].type = t_dir;
				st.nodes[ par ].kids[ last ] = i;
			}
			p = e + 1;
		}
	}
	void Vfs::erase( const std::string& path )
	{
		In in;
		int par, err; std::string last;
		int i = lookup( st, cwd, path, &par, &last, &err, nullptr );
		if ( !i || !par || i == 1 ) return;
		std::function< void( int ) > rec = [&]( int n ) { auto kids = st.nodes[ n ].kids; for ( auto& k : kids ) rec( k.second ); if ( n != i ) st.nodes.erase( n ); };
		rec( i );
		st.nodes[ par ].kids.erase( last );
		st.nodes.erase( i );
	}
	static void list_rec( const VfsState& st, int ino, const std::string& prefix, std::vector<std::string>& out )
	{
		for ( auto& k : st.nodes.at( ino ).kids )
		{
			auto& n = st.nodes.at( k.second );
			out.push_back( prefix + "/" + k.first + ( n.type == t_dir ? "/" : "" ) );
			if ( n.type == t_dir ) list_rec( st, k.second, prefix + "/" + k.first, out );
		}
	}
	std::vector<std::string> Vfs::list() const { In in; std::vector<std::string> r; list_rec( st, 1, "", r ); return r; }
	u64 Vfs::hash() const
	{
		In in;
		u64 h = 7;
		for ( auto& p : list() ) { h = hash_str( h, p ); std::string d; if ( get( p, d ) ) h = hash_str( h, d ); }
		return h;
	}

	/// common entry of every simulated call
	struct Enter {
		std::unique_lock<std::recursive_mutex> lk;
		In in;
		const Fault* f = nullptr;
		Enter( int call, const std::string& what, bool quiet = false ) : lk( g_mx, std::defer_lock )
		{
			--tl_pause; // yield as user code
			if ( tl_pause == 0 ) yield_point();
			++tl_pause;
			lk.lock();
			auto& v = vfs();
			++v.seq;
			v.calls[ names[ call ] ] += 1;
			g_run.calls[ call ] += 1;
			if ( v.seq > 400000 ) die_violation( "step_budget", "more than 400000 file system calls in one run" );
			if ( !quiet ) ev( std::string( names[ call ] ) + " " + what );
			f = match( call );
		}
		/// error number of the fault that applies, or 0
		int err( const char* name )
		{
			if ( !f ) return 0;
			std::string a = act_of( f );
			if ( a == "part" || a == "lose" || a == "late" || a == "jump" ) return 0;
			fault_fired( std::string( name ) + ":" + a );
			return errno_of( a );
		}
	};

	/// a call is about to change the file system; the crash point may be here
	static void before_mut( int ino = 0, const char* wdata = nullptr, size_t wlen = 0, i64 pos = 0 )
	{
		const Fault* f = match( c_mut );
		if ( f && !vfs().crashed )
		{
			auto& v = vfs();
			v.crashed = true;
			v.crash_state = v.st;
			v.crash_state.capacity = -1;
			size_t torn = 0;
			if ( wdata )
			{
				torn = (u64)f->arg % ( wlen + 1 );
				auto& d = v.crash_state.nodes[ ino ].data;
				if ( (i64)d.size() < pos + (i64)torn ) d.resize( pos + torn );
				d.replace( pos, torn, wdata, torn );
			}
			fault_fired( wdata ? ( torn ? "crash:torn-write" : "crash:before-write" ) : "crash:at-metadata-call" );
		}
	}

	static int vfs_open( const std::string& path, bool rd, bool wr, bool app, bool creat, bool trunc, bool excl, bool dironly )
	{
		Enter e( c_open, path + ( wr ? " w" : " r" ) );
		auto& v = vfs();
		if ( int er = e.err( "open" ) ) { errno = er; return -1; }
		int par, err; std::string last; bool wd;
		int i = lookup( v.st, v.cwd, path, &par, &last, &err, &wd );
		if ( !i )
		{
			if ( err == ENOENT && creat && par && !wd )
			{
				if ( v.st.nodes[ par ].no_write ) { errno = EACCES; return -1; }
				if ( v.st.capacity == 0 ) { fault_fired( "disk-full:create" ); if ( tl_scope ) ++tl_scope->fired_all, ++tl_scope->fired_by[ c_open ]; errno = ENOSPC; return -1; }
				before_mut();
				i = v.st.next++;
				v.st.nodes[ i ].type = t_file;
				v.st.nodes[ par ].kids[ last ] = i;
				v.created.push_back( Created{ v.path_of( i ), t_file, tl_task, v.seq } );
			}
			else { errno = err ? err : ENOENT; return -1; }
		}
		else
		{
			if ( creat && excl ) { errno = EEXIST; return -1; }
			auto& n = v.st.nodes[ i ];
			if ( n.type == t_dir && ( wr || creat ) ) { errno = EISDIR; return -1; }
			if ( n.type != t_dir && dironly ) { errno = ENOTDIR; return -1; }
			if ( n.type == t_sock ) { errno = ENXIO; return -1; }
			if ( ( rd && n.no_read ) || ( wr && n.no_write ) ) { errno = EACCES; return -1; }
			if ( trunc && wr && n.type == t_file && !n.data.empty() ) { before_mut(); n.data.clear(); }
		}
		int fd = g_next_fd++;
		g_fds[ fd ] = OpenFile{ i, 0, rd, wr, app, nullptr, false };
		return fd;
	}

	static ssize_t vfs_read( int fd, char* buf, size_t n, bool raw, i64 at = -1 )
	{
		Enter e( c_read, std::to_string( fd ) + " " + std::to_string( n ) );
		auto it = g_fds.find( fd );
		if ( it == g_fds.end() || !it->second.rd ) { errno = EBADF; return -1; }
		if ( int er = e.err( "read" ) ) { errno = er; return -1; }
		auto& v = vfs();
		auto& nd = v.st.nodes[ it->second.ino ];
		if ( nd.type == t_dir ) { errno = EISDIR; return -1; }
		if ( g_io_on && raw && g_eintr_run < 3 && g_io.chance( g_io_eintr ) ) { ++g_eintr_run; fault_fired( "read:EINTR" ); errno = EINTR; return -1; }
		g_eintr_run = 0;
		i64 pos = at >= 0 ? at : it->second.pos;
		i64 left = (i64)nd.data.size() - pos;
		if ( left <= 0 || n == 0 ) return 0;
		size_t m = std::min<size_t>( n, (size_t)left );
		if ( g_io_on && m > 1 && g_io.chance( g_io_short ) ) { m = 1 + g_io.below( g_io.chance( 0.5 ) ? m - 1 : std::min<size_t>( 16, m - 1 ) ); fault_fired( "read:short" ); }
		memcpy( buf, nd.data.data() + pos, m );
		if ( at < 0 ) it->second.pos += m;
		return (ssize_t)m;
	}

	static ssize_t vfs_write( int fd, const char* buf, size_t n, bool raw, i64 at = -1 )
	{
		Enter e( c_write, std::to_string( fd ) + " " + std::to_string( n ) );
		auto it = g_fds.find( fd );
		if ( it == g_fds.end() || !it->second.wr ) { errno = EBADF; return -1; }
		auto& v = vfs();
		auto& nd = v.st.nodes[ it->second.ino ];
		if ( n == 0 ) return 0;
		if ( tl_scope && tl_scope->write_err ) { int er = tl_scope->write_err; tl_scope->write_err = 0; fault_fired( "write:error-after-partial" ); errno = er; return -1; }
		size_t m = n;
		if ( e.f && act_of( e.f ) == "part" )
		{
			m = (u64)e.f->arg % n;
			if ( m == 0 ) { fault_fired( "write:ENOSPC" ); errno = ENOSPC; return -1; }
			fault_fired( "write:partial" );
			tl_scope->write_err = ENOSPC;
		}
		else if ( int er = e.err( "write" ) ) { errno = er; return -1; }
		else
		{
			if ( g_io_on && raw && g_eintr_run < 3 && g_io.chance( g_io_eintr ) ) { ++g_eintr_run; fault_fired( "write:EINTR" ); errno = EINTR; return -1; }
			g_eintr_run = 0;
			if ( g_io_on && m > 1 && g_io.chance( g_io_short ) ) { m = 1 + g_io.below( g_io.chance( 0.5 ) ? m - 1 : std::min<size_t>( 16, m - 1 ) ); fault_fired( "write:short" ); }
		}
		i64 pos = at >= 0 ? at : it->second.app ? (i64)nd.data.size() : it->second.pos;
		if ( v.st.capacity >= 0 )
		{
			i64 grow = std::max<i64>( 0, pos + (i64)m - (i64)nd.data.size() );
			if ( grow > v.st.capacity )
			{
				i64 fit = (i64)m - ( grow - v.st.capacity );
				fault_fired( "disk-full:write" );
				if ( tl_scope ) ++tl_scope->fired_all, ++tl_scope->fired_by[ c_write ];
				if ( fit <= 0 ) { errno = ENOSPC; return -1; }
				m = (size_t)fit;
			}
			v.st.capacity -= std::max<i64>( 0, pos + (i64)m - (i64)nd.data.size() );
		}
		before_mut( it->second.ino, buf, m, pos );
		if ( (i64)nd.data.size() < pos + (i64)m ) nd.data.resize( pos + m );
		nd.data.replace( pos, m, buf, m );
		if ( nd.data.size() > ( 64u << 20 ) ) die_violation( "step_budget", "a file grew beyond 64 MB" );
		if ( at < 0 ) it->second.pos = pos + m;
		return (ssize_t)m;
	}

	static i64 vfs_seek( int fd, i64 off, int whence )
	{
		Enter e( c_seek, std::to_string( fd ) + " " + std::to_string( off ) + " " + std::to_string( whence ) );
		auto it = g_fds.find( fd );
		if ( it == g_fds.end() ) { errno = EBADF; return -1; }
		i64 base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? it->second.pos : (i64)vfs().st.nodes[ it->second.ino ].data.size();
		if ( base + off < 0 ) { errno = EINVAL; return -1; }
		return it->second.pos = base + off;
	}

	static int vfs_close( int fd )
	{
		Enter e( c_close, std::to_string( fd ) );
		auto it = g_fds.find( fd );
		if ( it == g_fds.end() ) { errno = EBADF; return -1; }
		bool wr = it->second.wr; int ino = it->second.ino;
		g_fds.erase( it );
		if ( e.f && wr )
		{
			if ( act_of( e.f ) == "lose" )
			{
				auto& d = vfs().st.nodes[ ino ].data;
				i64 l = std::min<i64>( (i64)d.size(), e.f->arg );
				d.resize( d.size() - l );
				fault_fired( "close:lost-tail" );
				errno = EIO; return -1;
			}
			if ( int er = e.err( "close" ) ) { errno = er; return -1; }
		}
		else if ( e.f && tl_scope ) { --tl_scope->fired_all; --tl_scope->fired_by[ c_close ]; } // harmless on a file open for reading
		return 0;
	}

	static void fill_stat( struct stat* s, int ino )
	{
		memset( s, 0, sizeof *s );
		auto& n = vfs().st.nodes[ ino ];
		mode_t t = n.type == t_dir ? S_IFDIR : n.type == t_sock ? S_IFSOCK : n.type == t_blk ? S_IFBLK : n.type == t_chr ? S_IFCHR : n.type == t_fifo ? S_IFIFO : S_IFREG;
		s->st_mode = t | ( n.no_read ? 0300 : 0755 );
		s->st_ino = ino; s->st_dev = 77; s->st_nlink = 1; s->st_size = n.data.size(); s->st_blksize = 4096;
	}
	static int vfs_stat( const std::string& path, struct stat* s )
	{
		Enter e( c_stat, path );
		if ( int er = e.err( "stat" ) ) { errno = er; return -1; }
		auto& v = vfs();
		int par, err; std::string last;
		int i = lookup( v.st, v.cwd, path, &par, &last, &err, nullptr );
		if ( !i ) { errno = err ? err : ENOENT; return -1; }
		fill_stat( s, i );
		return 0;
	}
	static int vfs_fstat( int fd, struct stat* s )
	{
		In in; std::lock_guard<std::recursive_mutex> lk( g_mx );
		auto it = g_fds.find( fd );
		if ( it == g_fds.end() ) { errno = EBADF; return -1; }
		fill_stat( s, it->second.ino );
		return 0;
	}
	static int vfs_mkdir( const std::string& path )
	{
		Enter e( c_mkdir, path );
		if ( int er = e.err( "mkdir" ) ) { errno = er; return -1; }
		auto& v = vfs();
		int par, err; std::string last;
		int i = lookup( v.st, v.cwd, path, &par, &last, &err, nullptr );
		if ( i ) { errno = EEXIST; return -1; }
		if ( !par || err != ENOENT )
		{
			errno = err ? err : ENOENT;
			if ( par && err == ENOTDIR ) errno = EEXIST; // "file/"
			return -1;
		}
		if ( v.st.nodes[ par ].no_write ) { errno = EACCES; return -1; }
		before_mut();
		i = v.st.next++;
		v.st.nodes[ i ].type = t_dir;
		v.st.nodes[ par ].kids[ last ] = i;
		v.created.push_back( Created{ v.path_of( i ), t_dir, tl_task, v.seq } );
		return 0;
	}
	/// what: 1 unlink, 2 rmdir, 3 remove
	static int vfs_unlink( const std::string& path, int what )
	{
		Enter e( c_unlink, path );
		if ( int er = e.err( "unlink" ) ) { errno = er; return -1; }
		auto& v = vfs();
		int par, err; std::string last;
		int i = lookup( v.st, v.cwd, path, &par, &last, &err, nullptr );
		if ( !i ) { errno = err ? err : ENOENT; return -1; }
		if ( i == 1 || !par || last == "." || last == ".." ) { errno = EBUSY; return -1; }
		auto& n = v.st.nodes[ i ];
		if ( n.type == t_dir && what == 1 ) { errno = EISDIR; return -1; }
		if ( n.type != t_dir && what == 2 ) { errno = ENOTDIR; return -1; }
		if ( n.type == t_dir && !n.kids.empty() ) { errno = ENOTEMPTY; return -1; }
		if ( v.st.nodes[ par ].no_write ) { errno = EACCES; return -1; }
		before_mut();
		v.removed.push_back( Created{ v.path_of( i ), n.type, tl_task, v.seq } );
		v.st.nodes[ par ].kids.erase( last );
		bool open = false;
		for ( auto& f : g_fds ) if ( f.second.ino == i ) open = true;
		if ( !open ) v.st.nodes.erase( i );
		return 0;
	}
	static int vfs_rename( const std::string& from, const std::string& to )
	{
		std::string what; { In in; what = from + " -> " + to; }
		Enter e( c_unlink, what );
		if ( int er = e.err( "rename" ) ) { errno = er; return -1; }
		auto& v = vfs();
		int p1, p2, e1, e2; std::string l1, l2;
		int i = lookup( v.st, v.cwd, from, &p1, &l1, &e1, nullptr );
		if ( !i ) { errno = e1 ? e1 : ENOENT; return -1; }
		int j = lookup( v.st, v.cwd, to, &p2, &l2, &e2, nullptr );
		if ( !p2 || !p1 ) { errno = e2 ? e2 : ENOENT; return -1; }
		if ( j == i ) return 0;
		if ( j )
		{
			bool di = v.st.nodes[ i ].type == t_dir, dj = v.st.nodes[ j ].type == t_dir;
			if ( dj && !di ) { errno = EISDIR; return -1; }
			if ( !dj && di ) { errno = ENOTDIR; return -1; }
			if ( dj && !v.st.nodes[ j ].kids.empty() ) { errno = ENOTEMPTY; return -1; }
		}
		before_mut();
		v.removed.push_back( Created{ v.path_of( i ), v.st.nodes[ i ].type, tl_task, v.seq } );
		v.st.nodes[ p1 ].kids.erase( l1 );
		v.st.nodes[ p2 ].kids[ l2 ] = i;
		v.created.push_back( Created{ v.path_of( i ), v.st.nodes[ i ].type, tl_task, v.seq } );
		return 0;
	}

	// ---- stdio streams on simulated files
	static ssize_t ck_read( void* c, char* b, size_t n ) { return vfs_read( (int)(intptr_t)c, b, n, false ); }
	static ssize_t ck_write( void* c, const char* b, size_t n ) { ssize_t r = vfs_write( (int)(intptr_t)c, b, n, false ); return r < 0 ? 0 : r; }
	static int ck_seek( void* c, off64_t* o, int w ) { i64 r = vfs_seek( (int)(intptr_t)c, *o, w ); if ( r < 0 ) return -1; *o = r; return 0; }
	static int ck_close( void* c )
	{
		int fd = (int)(intptr_t)c;
		{
			In in; std::lock_guard<std::recursive_mutex> lk( g_mx );
			for ( auto it = g_files.begin(); it != g_files.end(); ++it ) if ( it->second == fd ) { g_files.erase( it ); break; }
		}
		return vfs_close( fd );
	}
	static FILE* vfs_file( int fd, const char* mode )
	{
		In in; std::lock_guard<std::recursive_mutex> lk( g_mx );
		cookie_io_functions_t io = { ck_read, ck_write, ck_seek, ck_close };
		std::string m; for ( const char* p = mode; *p; ++p ) if ( strchr( "rwab+", *p ) ) m += *p;
		FILE* f = fopencookie( (void*)(intptr_t)fd, m.c_str(), io );
		if ( f ) { g_files[ f ] = fd; g_fds[ fd ].file = f; }
		return f;
	}
	static FILE* vfs_fopen( const std::string& path, const char* mode )
	{
		bool plus = strchr( mode, '+' ) != nullptr, x = strchr( mode, 'x' ) != nullptr;
		bool r = mode[ 0 ] == 'r', w = mode[ 0 ] == 'w', a = mode[ 0 ] == 'a';
		int fd = vfs_open( path, r || plus, w || a || plus, a, w || a, w, x, false );
		return fd < 0 ? nullptr : vfs_file( fd, mode );
	}

	bool fake_fd( int fd ) { return fd >= fd_base; }
}

using namespace sim;

template< typename F > static F real_fn( const char* name )
{
	return (F)dlsym( RTLD_NEXT, name );
}
#define REAL( ret, name, ... ) static ret ( *real )( __VA_ARGS__ ) = real_fn< ret ( * )( __VA_ARGS__ ) >( name )

// paths the C library or the sanitizer itself may need while a run is active
static bool outside( const char* p ) { return !p || !strncmp( p, "/proc/", 6 ) || !strncmp( p, "/dev/", 5 ) || !strncmp( p, "/sys/", 5 ); }
static bool act() { return g_active; }
// own copy of a path: the harness's memory, not the program's
static std::string ps( const char* p ) { In in; return p ? p : ""; }

extern "C" {
	FILE* fopen( const char* p, const char* m ) { if ( act() && !outside( p ) ) return vfs_fopen( ps( p ), m ); REAL( FILE*, "fopen", const char*, const char* ); return real( p, m ); }
	FILE* fopen64( const char* p, const char* m ) { if ( act() && !outside( p ) ) return vfs_fopen( ps( p ), m ); REAL( FILE*, "fopen64", const char*, const char* ); return real( p, m ); }
	int fileno( FILE* f ) noexcept
	{
		if ( act() ) { In in; std::lock_guard<std::recursive_mutex> lk( g_mx ); auto it = g_files.find( f ); if ( it != g_files.end() ) return it->second; }
		REAL( int, "fileno", FILE* ); return real( f );
	}
	FILE* fdopen( int fd, const char* m ) noexcept { if ( fake_fd( fd ) ) return vfs_file( fd, m ); REAL( FILE*, "fdopen", int, const char* ); return real( fd, m ); }

	static int open_flags( const char* p, int fl ) { int acc = fl & O_ACCMODE; return vfs_open( ps( p ), acc == O_RDONLY || acc == O_RDWR, acc != O_RDONLY, fl & O_APPEND, fl & O_CREAT, fl & O_TRUNC, fl & O_EXCL, fl & O_DIRECTORY ); }
	int open( const char* p, int fl, ... )
	{
		va_list a; va_start( a, fl ); int md = va_arg( a, int ); va_end( a );
		if ( act() && !outside( p ) ) return open_flags( p, fl );
		REAL( int, "open", const char*, int, int ); return real( p, fl, md );
	}
	int open64( const char* p, int fl, ... )
	{
		va_list a; va_start( a, fl ); int md = va_arg( a, int ); va_end( a );
		if ( act() && !outside( p ) ) return open_flags( p, fl );
		REAL( int, "open64", const char*, int, int ); return real( p, fl, md );
	}
	int openat( int d, const char* p, int fl, ... )
	{
		va_list a; va_start( a, fl ); int md = va_arg( a, int ); va_end( a );
		if ( act() && d == AT_FDCWD && !outside( p ) ) return open_flags( p, fl );
		REAL( int, "openat", int, const char*, int, int ); return real( d, p, fl, md );
	}
	int creat( const char* p, mode_t m ) { return open( p, O_CREAT | O_WRONLY | O_TRUNC, m ); }
	ssize_t read( int fd, void* b, size_t n ) { if ( fake_fd( fd ) ) return vfs_read( fd, (char*)b, n, true ); REAL( ssize_t, "read", int, void*, size_t ); return real( fd, b, n ); }
	ssize_t write( int fd, const void* b, size_t n ) { if ( fake_fd( fd ) ) return vfs_write( fd, (const char*)b, n, true ); REAL( ssize_t, "write", int, const void*, size_t ); return real( fd, b, n ); }
	ssize_t pread( int fd, void* b, size_t n, off_t o ) { if ( fake_fd( fd ) ) return vfs_read( fd, (char*)b, n, true, o ); REAL( ssize_t, "pread", int, void*, size_t, off_t ); return real( fd, b, n, o ); }
	ssize_t pwrite( int fd, const void* b, size_t n, off_t o ) { if ( fake_fd( fd ) ) return vfs_write( fd, (const char*)b, n, true, o ); REAL( ssize_t, "pwrite", int, const void*, size_t, off_t ); return real( fd, b, n, o ); }
	ssize_t writev( int fd, const struct iovec* v, int c )
	{
		if ( fake_fd( fd ) )
		{
			In in; std::string all; for ( int i = 0; i < c; ++i ) all.append( (const char*)v[ i ].iov_base, v[ i ].iov_len );
			--tl_pause; ssize_t r = vfs_write( fd, all.data(), all.size(), true ); ++tl_pause;
			return r;
		}
		REAL( ssize_t, "writev", int, const struct iovec*, int ); return real( fd, v, c );
	}
	ssize_t readv( int fd, const struct iovec* v, int c )
	{
		if ( fake_fd( fd ) ) { for ( int i = 0; i < c; ++i ) if ( v[ i ].iov_len ) return vfs_read( fd, (char*)v[ i ].iov_base, v[ i ].iov_len, true ); return 0; }
		REAL( ssize_t, "readv", int, const struct iovec*, int ); return real( fd, v, c );
	}
	off_t lseek( int fd, off_t o, int w ) noexcept { if ( fake_fd( fd ) ) return vfs_seek( fd, o, w ); REAL( off_t, "lseek", int, off_t, int ); return real( fd, o, w ); }
	off64_t lseek64( int fd, off64_t o, int w ) noexcept { if ( fake_fd( fd ) ) return vfs_seek( fd, o, w ); REAL( off64_t, "lseek64", int, off64_t, int ); return real( fd, o, w ); }
	int close( int fd ) { if ( fake_fd( fd ) ) return vfs_close( fd ); REAL( int, "close", int ); return real( fd ); }
	int fsync( int fd ) { if ( fake_fd( fd ) ) return 0; REAL( int, "fsync", int ); return real( fd ); }
	int fdatasync( int fd ) { if ( fake_fd( fd ) ) return 0; REAL( int, "fdatasync", int ); return real( fd ); }
	int ftruncate( int fd, off_t n ) noexcept
	{
		if ( fake_fd( fd ) ) { Enter e( c_write, "ftruncate" ); auto it = g_fds.find( fd ); if ( it == g_fds.end() || !it->second.wr ) { errno = EBADF; return -1; } before_mut(); vfs().st.nodes[ it->second.ino ].data.resize( n ); return 0; }
		REAL( int, "ftruncate", int, off_t ); return real( fd, n );
	}
	int fstat( int fd, struct stat* s ) noexcept { if ( fake_fd( fd ) ) return vfs_fstat( fd, s ); REAL( int, "fstat", int, struct stat* ); return real( fd, s ); }
	int fstat64( int fd, struct stat64* s ) noexcept { if ( fake_fd( fd ) ) return vfs_fstat( fd, (struct stat*)s ); REAL( int, "fstat64", int, struct stat64* ); return real( fd, s ); }
	int stat( const char* p, struct stat* s ) noexcept { if ( act() && !outside( p ) ) return vfs_stat( ps( p ), s ); REAL( int, "stat", const char*, struct stat* ); return real( p, s ); }
	int stat64( const char* p, struct stat64* s ) noexcept { if ( act() && !outside( p ) ) return vfs_stat( ps( p ), (struct stat*)s ); REAL( int, "stat64", const char*, struct stat64* ); return real( p, s ); }
	int lstat( const char* p, struct stat* s ) noexcept { if ( act() && !outside( p ) ) return vfs_stat( ps( p ), s ); REAL( int, "lstat", const char*, struct stat* ); return real( p, s ); }
	int lstat64( const char* p, struct stat64* s ) noexcept { if ( act() && !outside( p ) ) return vfs_stat( ps( p ), (struct stat*)s ); REAL( int, "lstat64", const char*, struct stat64* ); return real( p, s ); }
	int fstatat( int d, const char* p, struct stat* s, int fl ) noexcept { if ( act() && d == AT_FDCWD && !outside( p ) ) return vfs_stat( ps( p ), s ); REAL( int, "fstatat", int, const char*, struct stat*, int ); return real( d, p, s, fl ); }
	int access( const char* p, int m ) noexcept
	{
		if ( act() && !outside( p ) )
		{
			struct stat s; if ( vfs_stat( ps( p ), &s ) ) return -1;
			In in; auto* n = vfs().node( p );
			if ( n && ( ( ( m & R_OK ) && n->no_read ) || ( ( m & W_OK ) && n->no_write ) ) ) { errno = EACCES; return -1; }
			return 0;
		}
		REAL( int, "access", const char*, int ); return real( p, m );
	}
	int faccessat( int d, const char* p, int m, int fl ) noexcept { if ( act() && d == AT_FDCWD && !outside( p ) ) return access( p, m ); REAL( int, "faccessat", int, const char*, int, int ); return real( d, p, m, fl ); }
	int mkdir( const char* p, mode_t m ) noexcept { if ( act() ) return vfs_mkdir( ps( p ) ); REAL( int, "mkdir", const char*, mode_t ); return real( p, m ); }
	int mkdirat( int d, const char* p, mode_t m ) noexcept { if ( act() && d == AT_FDCWD ) return vfs_mkdir( ps( p ) ); REAL( int, "mkdirat", int, const char*, mode_t ); return real( d, p, m ); }
	int unlink( const char* p ) noexcept { if ( act() ) return vfs_unlink( ps( p ), 1 ); REAL( int, "unlink", const char* ); return real( p ); }
	int rmdir( const char* p ) noexcept { if ( act() ) return vfs_unlink( ps( p ), 2 ); REAL( int, "rmdir", const char* ); return real( p ); }
	int remove( const char* p ) noexcept { if ( act() ) return vfs_unlink( ps( p ), 3 ); REAL( int, "remove", const char* ); return real( p ); }
	int unlinkat( int d, const char* p, int fl ) noexcept { if ( act() && d == AT_FDCWD ) return vfs_unlink( ps( p ), fl & AT_REMOVEDIR ? 2 : 1 ); REAL( int, "unlinkat", int, const char*, int ); return real( d, p, fl ); }
	int rename( const char* a, const char* b ) noexcept { if ( act() ) return vfs_rename( ps( a ), ps( b ) ); REAL( int, "rename", const char*, const char* ); return real( a, b ); }
	int link( const char* a, const char* b ) noexcept { if ( act() ) { errno = EPERM; return -1; } REAL( int, "link", const char*, const char* ); return real( a, b ); }
	int symlink( const char* a, const char* b ) noexcept { if ( act() ) { errno = EPERM; return -1; } REAL( int, "symlink", const char*, const char* ); return real( a, b ); }
	int truncate( const char* p, off_t n ) noexcept { if ( act() ) { int fd = open( p, O_WRONLY ); if ( fd < 0 ) return -1; int r = ftruncate( fd, n ); close( fd ); return r; } REAL( int, "truncate", const char*, off_t ); return real( p, n ); }
	int chmod( const char* p, mode_t m ) noexcept { if ( act() ) { struct stat s; return vfs_stat( ps( p ), &s ); } REAL( int, "chmod", const char*, mode_t ); return real( p, m ); }
	int chdir( const char* p ) noexcept
	{
		if ( act() )
		{
			Enter e( c_chdir, ps( p ) );
			if ( int er = e.err( "chdir" ) ) { errno = er; return -1; }
			auto& v = vfs(); int par, err; std::string last;
			int i = lookup( v.st, v.cwd, p ? p : "", &par, &last, &err, nullptr );
			if ( !i ) { errno = err ? err : ENOENT; return -1; }
			if ( v.st.nodes[ i ].type != t_dir ) { errno = ENOTDIR; return -1; }
			v.cwd = i;
			return 0;
		}
		REAL( int, "chdir", const char* ); return real( p );
	}
	char* getcwd( char* b, size_t n ) noexcept
	{
		if ( act() )
		{
			Enter e( c_getcwd, "" );
			if ( int er = e.err( "getcwd" ) ) { errno = er; return nullptr; }
			std::string s = vfs().path_of( vfs().cwd );
			if ( s == "?" ) { errno = ENOENT; return nullptr; }
			if ( !b ) { size_t m = n ? n : s.size() + 1; if ( m < s.size() + 1 ) { errno = ERANGE; return nullptr; } b = (char*)malloc( m ); }
			else if ( n < s.size() + 1 ) { errno = ERANGE; return nullptr; }
			memcpy( b, s.c_str(), s.size() + 1 );
			return b;
		}
		REAL( char*, "getcwd", char*, size_t ); return real( b, n );
	}
	char* get_current_dir_name() noexcept { return getcwd( nullptr, 0 ); }
	int ioctl( int fd, unsigned long r, ... ) noexcept
	{
		va_list a; va_start( a, r ); void* p = va_arg( a, void* ); va_end( a );
		if ( fake_fd( fd ) ) { if ( r == FIONREAD && p ) { In in; auto it = g_fds.find( fd ); if ( it == g_fds.end() ) { errno = EBADF; return -1; } i64 l = (i64)vfs().st.nodes[ it->second.ino ].data.size() - it->second.pos; *(int*)p = l > 0 ? (int)l : 0; return 0; } errno = ENOTTY; return -1; }
		REAL( int, "ioctl", int, unsigned long, void* ); return real( fd, r, p );
	}
	int poll( struct pollfd* f, nfds_t n, int t )
	{
		if ( act() && n == 0 && t > 0 ) { i64 rem; if ( do_sleep( t * 1000000LL, rem ) ) { errno = EINTR; return -1; } return 0; }
		if ( act() && n > 0 && fake_fd( f[ 0 ].fd ) ) { for ( nfds_t i = 0; i < n; ++i ) f[ i ].revents = f[ i ].events; return (int)n; }
		REAL( int, "poll", struct pollfd*, nfds_t, int ); return real( f, n, t );
	}

	// ---- clock
	int clock_gettime( clockid_t id, struct timespec* t ) noexcept
	{
		if ( act() ) { i64 v = read_clock( id ); t->tv_sec = v / 1000000000; t->tv_nsec = v % 1000000000; return 0; }
		return (int)syscall( SYS_clock_gettime, id, t );
	}
	int gettimeofday( struct timeval* t, void* z ) noexcept
	{
		if ( act() ) { i64 v = read_clock( CLOCK_REALTIME ); t->tv_sec = v / 1000000000; t->tv_usec = v % 1000000000 / 1000; return 0; }
		return (int)syscall( SYS_gettimeofday, t, z );
	}
	time_t time( time_t* t ) noexcept
	{
		time_t r;
		if ( act() ) r = read_clock( CLOCK_REALTIME ) / 1000000000;
		else { struct timespec ts; syscall( SYS_clock_gettime, CLOCK_REALTIME, &ts ); r = ts.tv_sec; }
		if ( t ) *t = r;
		return r;
	}
	int timespec_get( struct timespec* t, int base ) noexcept { if ( base != TIME_UTC ) return 0; clock_gettime( CLOCK_REALTIME, t ); return base; }
	clock_t clock() noexcept
	{
		if ( act() ) return read_clock( CLOCK_PROCESS_CPUTIME_ID ) / ( 1000000000 / CLOCKS_PER_SEC );
		struct timespec ts; syscall( SYS_clock_gettime, CLOCK_PROCESS_CPUTIME_ID, &ts ); return ts.tv_sec * CLOCKS_PER_SEC + ts.tv_nsec / ( 1000000000 / CLOCKS_PER_SEC );
	}
	int nanosleep( const struct timespec* a, struct timespec* r )
	{
		if ( act() )
		{
			if ( a->tv_sec < 0 || a->tv_nsec < 0 || a->tv_nsec > 999999999 ) { errno = EINVAL; return -1; }
			i64 rem; int e = do_sleep( a->tv_sec * 1000000000LL + a->tv_nsec, rem );
			if ( e ) { if ( r ) { r->tv_sec = rem / 1000000000; r->tv_nsec = rem % 1000000000; } errno = e; return -1; }
			return 0;
		}
		REAL( int, "nanosleep", const struct timespec*, struct timespec* ); return real( a, r );
	}
	int clock_nanosleep( clockid_t id, int fl, const struct timespec* a, struct timespec* r )
	{
		if ( act() )
		{
			i64 t = a->tv_sec * 1000000000LL + a->tv_nsec, rem;
			if ( fl & TIMER_ABSTIME ) { auto& c = clk(); t -= id == CLOCK_REALTIME ? c.real : c.mono; }
			if ( t < 0 ) t = 0;
			int e = do_sleep( t, rem );
			if ( e && r && !( fl & TIMER_ABSTIME ) ) { r->tv_sec = rem / 1000000000; r->tv_nsec = rem % 1000000000; }
			return e;
		}
		REAL( int, "clock_nanosleep", clockid_t, int, const struct timespec*, struct timespec* ); return real( id, fl, a, r );
	}
	int usleep( useconds_t u ) { if ( act() ) { i64 rem; int e = do_sleep( u * 1000LL, rem ); if ( e ) { errno = e; return -1; } return 0; } REAL( int, "usleep", useconds_t ); return real( u ); }
	unsigned sleep( unsigned s ) { if ( act() ) { i64 rem; do_sleep( s * 1000000000LL, rem ); return (unsigned)( ( rem + 999999999 ) / 1000000000 ); } REAL( unsigned, "sleep", unsigned ); return real( s ); }
	int select( int n, fd_set* a, fd_set* b, fd_set* c, struct timeval* t )
	{
		if ( act() && n == 0 && t ) { i64 rem; int e = do_sleep( t->tv_sec * 1000000000LL + t->tv_usec * 1000LL, rem ); if ( e ) { t->tv_sec = rem / 1000000000; t->tv_usec = rem % 1000000000 / 1000; errno = e; return -1; } return 0; }
		REAL( int, "select", int, fd_set*, fd_set*, fd_set*, struct timeval* ); return real( n, a, b, c, t );
	}
	int pthread_cond_timedwait( pthread_cond_t* c, pthread_mutex_t* m, const struct timespec* a )
	{
		if ( act() ) { i64 t = a->tv_sec * 1000000000LL + a->tv_nsec - clk().real, rem; if ( t < 0 ) t = 0; return do_sleep( t, rem ) ? 0 : ETIMEDOUT; }
		REAL( int, "pthread_cond_timedwait", pthread_cond_t*, pthread_mutex_t*, const struct timespec* ); return real( c, m, a );
	}
	int pthread_cond_clockwait( pthread_cond_t* c, pthread_mutex_t* m, clockid_t id, const struct timespec* a )
	{
		if ( act() ) { i64 t = a->tv_sec * 1000000000LL + a->tv_nsec - ( id == CLOCK_REALTIME ? clk().real : clk().mono ), rem; if ( t < 0 ) t = 0; return do_sleep( t, rem ) ? 0 : ETIMEDOUT; }
		REAL( int, "pthread_cond_clockwait", pthread_cond_t*, pthread_mutex_t*, clockid_t, const struct timespec* ); return real( c, m, id, a );
	}
}

// ---------------------------------------------------------------- locks
// a task that waits for a lock lets the others run: waiting is a scheduling
// decision of the simulator, not of the operating system
#define SIM_LOCK( name, tryname, type, what ) \
	int name( type* m ) noexcept \
	{ \
		REAL( int, #name, type* ); \
		if ( !act() || !scheduled() ) return real( m ); \
		static int ( *try_it )( type* ) = real_fn< int ( * )( type* ) >( #tryname ); \
		int r; i64 spins = 0; \
		while ( ( r = try_it( m ) ) == EBUSY ) blocked_yield( spins, "all tasks wait for a " what ); \
		return r; \
	}
extern "C" {
	SIM_LOCK( pthread_mutex_lock, pthread_mutex_trylock, pthread_mutex_t, "mutex" )
	SIM_LOCK( pthread_rwlock_rdlock, pthread_rwlock_tryrdlock, pthread_rwlock_t, "shared mutex" )
	SIM_LOCK( pthread_rwlock_wrlock, pthread_rwlock_trywrlock, pthread_rwlock_t, "shared mutex" )
	SIM_LOCK( pthread_spin_lock, pthread_spin_trylock, volatile int, "spin lock" )
	int sched_yield() noexcept
	{
		REAL( int, "sched_yield" );
		if ( !act() || !scheduled() ) return real();
		blocked_yield_soft();
		return 0;
	}
	// initialisation of function-local statics (byte 0: done, byte 1: under way)
	int __cxa_guard_acquire( long long* g )
	{
		char* b = (char*)g; i64 spins = 0;
		for ( ;; )
		{
			if ( __atomic_load_n( b, __ATOMIC_ACQUIRE ) ) return 0;
			char z = 0;
			if ( __atomic_compare_exchange_n( b + 1, &z, (char)1, false, __ATOMIC_ACQ_REL, __ATOMIC_ACQUIRE ) ) return 1;
			if ( act() && scheduled() ) blocked_yield( spins, "all tasks wait for the initialisation of a static variable" );
			else { struct timespec t = { 0, 1000 }; syscall( SYS_nanosleep, &t, nullptr ); }
		}
	}
	void __cxa_guard_release( long long* g ) { char* b = (char*)g; __atomic_store_n( b, (char)1, __ATOMIC_RELEASE ); __atomic_store_n( b + 1, (char)0, __ATOMIC_RELEASE ); }
	void __cxa_guard_abort( long long* g ) { char* b = (char*)g; __atomic_store_n( b + 1, (char)0, __ATOMIC_RELEASE ); }
	// function entries and exits of the program under test (built with -finstrument-functions)
	void __cyg_profile_func_enter( void*, void* ) { if ( tl_scope && tl_pause == 0 ) ++tl_scope->work; fine_yield(); }
	void __cyg_profile_func_exit( void*, void* ) { fine_yield(); }
	void __sanitizer_cov_trace_pc() { fine_yield(); } // every basic block (built with -fsanitize-coverage=trace-pc)
}

// ---------------------------------------------------------------- allocator seam
static void* sim_alloc( size_t n, size_t al, bool nothrow )
{
	fine_yield();
	if ( alloc_hook( n ) ) { if ( nothrow ) return nullptr; throw std::bad_alloc(); }
	void* p = al ? aligned_alloc( al, ( n + al - 1 ) / al * al ) : malloc( n ? n : 1 );
	if ( !p && !nothrow ) throw std::bad_alloc();
	return p;
}
void* operator new( size_t n ) { return sim_alloc( n, 0, false ); }
void* operator new[]( size_t n ) { return sim_alloc( n, 0, false ); }
void* operator new( size_t n, const std::nothrow_t& ) noexcept { return sim_alloc( n, 0, true ); }
void* operator new[]( size_t n, const std::nothrow_t& ) noexcept { return sim_alloc( n, 0, true ); }
void* operator new( size_t n, std::align_val_t a ) { return sim_alloc( n, (size_t)a, false ); }
void* operator new[]( size_t n, std::align_val_t a ) { return sim_alloc( n, (size_t)a, false ); }
void operator delete( void* p ) noexcept { free( p ); }
void operator delete[]( void* p ) noexcept { free( p ); }
void operator delete( void* p, size_t ) noexcept { free( p ); }
void operator delete[]( void* p, size_t ) noexcept { free( p ); }
void operator delete( void* p, const std::nothrow_t& ) noexcept { free( p ); }
void operator delete[]( void* p, const std::nothrow_t& ) noexcept { free( p ); }
void operator delete( void* p, std::align_val_t ) noexcept { free( p ); }
void operator delete[]( void* p, std::align_val_t ) noexcept { free( p ); }
void operator delete( void* p, size_t, std::align_val_t ) noexcept { free( p ); }
void operator delete[]( void* p, size_t, std::align_val_t ) noexcept { free( p ); }

// ---------------------------------------------------------------- generation helpers
namespace sim
{
	void add_faults( Rng& r, Op& op, const FaultMix& m )
	{
		if ( !r.chance( m.rate ) ) return;
		std::vector<int> kinds;
		if ( m.open ) kinds.push_back( 0 );
		if ( m.read ) kinds.push_back( 1 );
		if ( m.write ) kinds.push_back( 2 );
		if ( m.close ) kinds.push_back( 3 );
		if ( m.mkdir ) kinds.push_back( 4 );
		if ( m.stat ) kinds.push_back( 5 );
		if ( m.unlink ) kinds.push_back( 6 );
		if ( m.alloc ) kinds.push_back( 7 );
		if ( m.crash ) kinds.push_back( 8 );
		if ( m.cap ) kinds.push_back( 9 );
		if ( kinds.empty() ) return;
		int n = r.chance( 0.15 ) ? 2 : 1;
		for ( int i = 0; i < n; ++i )
		{
			std::string plus = r.chance( 0.3 ) ? "+" : "";
			i64 nth = r.logrange( 6 );
			switch ( r.pick( kinds ) )
			{
			case 0: op.f.push_back( Fault{ "open", nth > 3 ? 1 : nth, r.pick<std::string>( { "EMFILE", "EACCES", "EIO", "ENOSPC" } ) + plus, 0 } ); break;
			case 1: op.f.push_back( Fault{ "read", nth, "EIO" + plus, 0 } ); break;
			case 2: if ( r.chance( 0.5 ) ) op.f.push_back( Fault{ "write", nth, "part", (i64)r.below( 5000 ) } ); else op.f.push_back( Fault{ "write", nth, r.pick<std::string>( { "ENOSPC", "EIO", "EDQUOT" } ) + plus, 0 } ); break;
			case 3: if ( r.chance( 0.5 ) ) op.f.push_back( Fault{ "close", nth > 2 ? 1 : nth, "lose", r.logrange( 4000 ) } ); else op.f.push_back( Fault{ "close", nth > 2 ? 1 : nth, r.pick<std::string>( { "EIO", "ENOSPC", "EDQUOT" } ), 0 } ); break;
			case 4: op.f.push_back( Fault{ "mkdir", nth, r.pick<std::string>( { "ENOSPC", "EACCES", "EIO", "EROFS" } ) + plus, 0 } ); break;
			case 5: op.f.push_back( Fault{ "stat", nth, r.pick<std::string>( { "EIO", "EACCES", "ENOMEM" } ) + plus, 0 } ); break;
			case 6: op.f.push_back( Fault{ "unlink", nth > 3 ? 1 : nth, r.pick<std::string>( { "EACCES", "EBUSY", "EIO", "EROFS" } ) + plus, 0 } ); break;
			case 7: op.f.push_back( Fault{ "alloc", r.logrange( m.alloc_span ), r.chance( 0.4 ) ? "fail+" : "fail", 0 } ); break;
			case 8: op.f.push_back( Fault{ "mut", r.logrange( 8 ), "crash", (i64)r.below( 10000 ) } ); break;
			case 9: op.f.push_back( Fault{ "cap", 1, "full", r.chance( 0.2 ) ? 0 : r.logrange( 6000 ) - 1 } ); break;
			}
		}
	}
	void gen_fine( Rng& r, Plan& p, bool scoped )
	{
		if ( !r.chance( 0.6 ) ) return;
		p.cfg[ "fine_seed" ] = (i64)( r.next() >> 2 ) | 1;
		p.cfg[ "fine_bits" ] = r.range( 1, 11 );
		if ( scoped ) p.cfg[ "fine_scoped" ] = 1;
	}
	std::vector<i64> gen_sched( Rng& r, size_t len, double preempt, int ntasks )
	{
		std::vector<i64> s( len, 0 );
		for ( auto& v : s ) if ( r.chance( preempt ) ) v = r.range( 1, std::max( 1, ntasks ) );
		return s;
	}
}
