// Deterministic simulator for flut: plan, PRNG, context, virtual file system,
// clock, allocator faults and task scheduler. See DESIGN.md.
#pragma once
#include <cstdint>
#include <cstddef>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

namespace sim
{
	typedef uint64_t u64;
	typedef long long i64;

	inline u64 mix( u64 z ) {
		z += 0x9e3779b97f4a7c15ull;
		z = ( z ^ ( z >> 30 ) ) * 0xbf58476d1ce4e5b9ull;
		z = ( z ^ ( z >> 27 ) ) * 0x94d049bb133111ebull;
		return z ^ ( z >> 31 );
	}
	u64 hash_bytes( u64 h, const void* p, size_t n );
	inline u64 hash_str( u64 h, const std::string& s ) { return hash_bytes( mix( h + s.size() ), s.data(), s.size() ); }

	struct Rng {
		u64 s;
		explicit Rng( u64 seed = 1 ) : s( seed ) {}
		u64 next() { u64 r = mix( s ); s += 0x9e3779b97f4a7c15ull; return r; }
		/// uniform in [0,n)
		u64 below( u64 n ) { return n ? next() % n : 0; }
		/// uniform in [a,b]
		i64 range( i64 a, i64 b ) { return a + (i64)below( (u64)( b - a + 1 ) ); }
		bool chance( double p ) { return ( next() >> 11 ) * ( 1.0 / 9007199254740992.0 ) < p; }
		double unit() { return ( next() >> 11 ) * ( 1.0 / 9007199254740992.0 ); }
		/// log-distributed in [1,n]
		i64 logrange( i64 n ) { i64 bits = 0; while ( ( 1LL << bits ) < n ) ++bits; i64 hi = 1LL << below( bits + 1 ); i64 v = 1 + (i64)below( hi ); return v > n ? n : v; }
		template< typename T > const T& pick( const std::vector<T>& v ) { return v[ below( v.size() ) ]; }
		Rng fork() { return Rng( next() ); }
	};

	// ---- kinds of intercepted calls
	enum Call { c_open, c_read, c_write, c_close, c_stat, c_mkdir, c_unlink, c_seek, c_chdir, c_getcwd, c_sleep, c_alloc, c_user, c_mut, c_count };
	const char* call_name( int c );

	struct Fault { std::string call; i64 nth; std::string act; i64 arg; };
	struct Op {
		std::string kind; std::vector<i64> n; std::vector<std::string> s; std::vector<Fault> f;
		i64 i( size_t k, i64 def = 0 ) const { return k < n.size() ? n[ k ] : def; }
		/// index in [0,m)
		size_t ix( size_t k, size_t m ) const { i64 v = i( k ); return m ? (size_t)( (u64)v % m ) : 0; }
		const std::string& str( size_t k ) const { static const std::string e; return k < s.size() ? s[ k ] : e; }
	};
	struct Plan {
		u64 seed = 0;
		std::map< std::string, i64 > cfg;
		std::vector<Op> ops;
		std::vector<i64> sched;
		i64 c( const std::string& k, i64 def = 0 ) const { auto it = cfg.find( k ); return it == cfg.end() ? def : it->second; }
		Op& add( const std::string& kind, std::vector<i64> n = {}, std::vector<std::string> s = {} ) { ops.push_back( Op{ kind, n, s, {} } ); return ops.back(); }
		std::string text( const std::string& id ) const;
		static Plan parse( const std::string& text );
	};

	struct Violation { std::string cls, msg; };

	/// throw a violation of the property (class decides identity while minimising)
	[[noreturn]] void fail( const std::string& cls, const std::string& msg );
	inline void check( bool ok, const char* cls, const std::string& msg ) { if ( !ok ) fail( cls, msg ); }
	/// count a probe ("this rare condition was hit")
	void probe( const std::string& name, i64 n = 1 );
	/// add something to the deterministic event log
	void ev( const std::string& s );
	/// record a state reached (distinct states are counted by hash)
	void state( u64 h );
	/// this run did something non-trivial (fault, preemption, clock step ...)
	void nontrivial();
	/// end the run early from any place (also inside operator new) with a violation
	[[noreturn]] void die_violation( const char* cls, const char* msg );
	std::string show( const std::string& s, size_t max = 200 );

	// ---- virtual file system
	enum Type { t_none, t_file, t_dir, t_sock, t_blk, t_chr, t_fifo };
	struct Inode {
		Type type = t_file;
		std::string data;
		std::map< std::string, int > kids;
		bool no_read = false, no_write = false; ///< EACCES on open (directories: on creation and removal inside)
	};
	struct Created { std::string path; Type type; int task; u64 seq; };
	struct VfsState {
		std::map< int, Inode > nodes; ///< 1 is the root directory
		int next = 2;
		i64 capacity = -1; ///< bytes left on the disk, -1: unlimited
	};
	struct Vfs {
		VfsState st;
		int cwd = 1;
		u64 seq = 0; ///< calls made so far
		std::vector<Created> created; ///< every entry created, in order
		std::vector<Created> removed;
		std::map< std::string, i64 > calls; ///< calls per kind
		// crash
		bool crashed = false; VfsState crash_state;

		void reset();
		int find( const std::string& path ) const; ///< inode or 0
		Type type( const std::string& path ) const;
		bool get( const std::string& path, std::string& out ) const;
		std::string data( const std::string& path ) const;
		/// create file (and parents) without going through the simulated calls
		int put( const std::string& path, const std::string& data, Type t = t_file );
		void mkdirs( const std::string& path );
		void erase( const std::string& path );
		Inode* node( const std::string& path ) { int i = find( path ); return i ? &st.nodes[ i ] : nullptr; }
		std::string cwd_path() const { return path_of( cwd ); }
		std::string path_of( int ino ) const;
		std::vector<std::string> list() const; ///< all paths, directories end in /
		u64 hash() const;
		void take_crash() { if ( crashed ) { st = crash_state; crashed = false; } }
		int open_files() const;
	};
	Vfs& vfs();

	// ---- clock
	struct Clock {
		i64 mono = 0; ///< ns since boot
		i64 real = 0; ///< wall clock, ns since the epoch
		i64 cpu = 0; ///< cpu time of the process
		i64 tick = 0; ///< how much every reading advances the clock (execution speed)
		i64 slept = 0;
		i64 reads = 0;
		i64 covered = 0; ///< all time simulated in this process
		void advance( i64 ns, bool running = true ) { mono += ns; real += ns; covered += ns; if ( running ) cpu += ns; }
		void jump( i64 ns ) { real += ns; }
		/// called just before a clock read returns (may advance or jump)
		std::function< void() > on_read;
	};
	Clock& clk();

	// ---- call scope: faults of an operation are active inside only
	struct CallScope {
		explicit CallScope( const Op& op );
		explicit CallScope( const std::vector<Fault>& f );
		~CallScope();
		CallScope( const CallScope& ) = delete;
		i64 count( int call ) const;
		i64 bytes() const; ///< memory allocated in this scope, freed or not
		i64 work() const; ///< functions of the code under test entered in this scope (if built for it)
		i64 fired() const; ///< faults that fired in this scope
		i64 fired( int call ) const;
		struct Impl; Impl* im;
	};
	/// harness code inside a call scope (callbacks): no counting, no faults
	struct Pause { Pause(); ~Pause(); };
	/// callback-level fault point of kind c_user; true if the fault fires here
	bool user_fault( i64* arg = nullptr );
	/// count a fault the scenario itself brings about
	void note_fault( const std::string& what );
	/// total number of faults of any kind that fired in the run
	i64 faults_fired();

	// ---- tasks
	/// run the tasks to completion under the plan's schedule
	void run_tasks( const Plan& p, const std::vector< std::function< void() > >& tasks );
	/// let the scheduler decide who goes on (no-op outside tasks)
	void yield_point();
	int task_id(); ///< -1 outside tasks

	/// a real thread that is not scheduled: runs f to completion, faults off
	void foreign_thread( const std::function< void() >& f );

	// ---- fault generation helpers
	struct FaultMix { ///< swarm: which faults this run may use
		double rate = 0; bool open = false, read = false, write = false, close = false, mkdir = false, stat = false, unlink = false, alloc = false, crash = false, cap = false;
		i64 alloc_span = 64;
	};
	void add_faults( Rng& r, Op& op, const FaultMix& m );
	/// schedule entries: mostly 0 (go on), some preemptions
	/// in some runs: preemption inside the code under test too (function entries and exits, allocations)
	/// (scoped: only while inside a call scope, for harness code with shared state)
	void gen_fine( Rng& r, Plan& p, bool scoped = false );
	std::vector<i64> gen_sched( Rng& r, size_t len, double preempt, int ntasks );
}

// provided by each scenario
extern const char* scen_id;
void scen_gen( sim::Rng& r, sim::Plan& p, bool thorough );
void scen_run( const sim::Plan& p );
