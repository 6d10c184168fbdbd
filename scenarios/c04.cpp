// C04: copy_file under open, read, write, close and allocation failures and full disks.
#include "common.hpp"
#include "flut/filesystem.hpp"
using namespace sim; using namespace scen;

const char* scen_id = "C04";
// 0-3 plain files, 4 in a subfolder, 5 in a missing folder, 6 a folder
static const vector<string> files = { "/w/a", "/w/b", "/w/c.bin", "/w/d", "/w/sub/e", "/w/missing/f", "/w/folder" };

void scen_gen( Rng& r, Plan& p, bool thorough )
{
	p.cfg[ "io_seed" ] = r.chance( 0.6 ) ? (i64)( r.next() >> 2 ) : 0;
	FaultMix m;
	m.rate = r.chance( 0.2 ) ? 0 : 0.2 + r.unit() * 0.6;
	m.open = r.chance( 0.3 ); m.read = r.chance( 0.5 ); m.write = r.chance( 0.5 ); m.close = r.chance( 0.4 ); m.cap = r.chance( 0.4 ); m.alloc = r.chance( 0.2 );
	m.alloc_span = 12;
	int n = (int)r.range( 2, thorough ? 20 : 10 );
	for ( int i = 0; i < n; ++i )
	{
		if ( r.chance( 0.5 ) || i == 0 )
		{
			i64 f = r.below( 5 );
			double k = r.unit();
			if ( k < 0.1 ) p.add( "gone", { f } );
			else if ( k < 0.2 ) p.add( "lock", { f, (i64)r.below( 3 ) } );
			else
			{
				// put <file> <size> <content seed>
				static const vector<i64> sizes = { 0, 0, 1, 2, 100, 4095, 4096, 8190, 8191, 8192, 8193, 16383, 16384, 20000, 65536, 65537, 131072, 150000 };
				static const vector<i64> large = { 262144, 500000, 1048576, 1048577, 1500000, 2097152, 3000000 };
				p.add( "put", { f, r.chance( 0.5 ) ? (i64)r.below( 300 ) : r.chance( 0.02 ) ? r.pick( large ) : r.pick( sizes ), (i64)r.below( 1000 ) } );
			}
		}
		if ( r.chance( 0.15 ) ) { p.add( "together", { (i64)r.below( 5 ), (i64)r.range( 2, 4 ) } ); if ( p.sched.empty() ) { p.sched = gen_sched( r, 400, 0.1 + r.unit() * 0.6, 4 ); gen_fine( r, p ); } }
		auto& op = p.add( "copy", { r.chance( 0.9 ) ? (i64)r.below( 5 ) : (i64)r.below( 7 ), r.chance( 0.9 ) ? (i64)r.below( 5 ) : (i64)r.below( 7 ), (i64)r.chance( 0.7 ), (i64)r.chance( 0.6 ), (i64)r.below( 4 ), (i64)r.below( 4 ) } );
		add_faults( r, op, m );
	}
}

void scen_run( const Plan& p )
{
	vfs().mkdirs( "/w/sub" ); vfs().mkdirs( "/w/folder" );
	for ( auto& op : p.ops )
	{
		if ( op.kind == "put" )
		{
			Rng g( op.i( 2 ) );
			i64 n = op.i( 1 ); if ( n < 0 ) n = 0; if ( n > 4000000 ) n = 4000000;
			string s( (size_t)n, 0 ); for ( size_t k = 0; k + 8 <= s.size(); k += 8 ) { u64 v = g.next(); memcpy( &s[ k ], &v, 8 ); } for ( size_t k = s.size() / 8 * 8; k < s.size(); ++k ) s[ k ] = (char)g.next();
			vfs().put( files[ op.ix( 0, 5 ) ], s );
		}
		else if ( op.kind == "gone" ) vfs().erase( files[ op.ix( 0, 5 ) ] );
		else if ( op.kind == "lock" ) { if ( auto* nd = vfs().node( files[ op.ix( 0, 5 ) ] ) ) { nd->no_read = op.ix( 1, 3 ) == 1; nd->no_write = op.ix( 1, 3 ) == 2; } }
		else if ( op.kind == "together" )
		{
			// several tasks copy at the same time, each to its own file
			size_t n = op.ix( 1, 5 ); if ( n < 2 ) n = 2;
			vector< std::function< void() > > tasks;
			for ( size_t t = 0; t < n; ++t ) tasks.push_back( [&, t] {
				const string from = files[ ( op.ix( 0, 5 ) + t ) % 5 ], to = "/w/sub/copy" + std::to_string( t );
				Inode* s = vfs().node( from );
				if ( !s || s->no_read ) return;
				string want = s->data; bool ok = false;
				try { ok = flut::copy_file( flut::path( from ), flut::path( to ), true ); } catch ( std::exception& e ) { fail( "exception", string( "copy_file threw: " ) + e.what() ); }
				check( ok, "spurious_failure", "a copy of " + from + " while other tasks copy reported failure although nothing failed" );
				string got; bool there = vfs().get( to, got );
				check( there && got == want, "success_different", "a copy of " + from + " while other tasks copy reported success but holds " + std::to_string( got.size() ) + " bytes that are not the " + std::to_string( want.size() ) + " source bytes" );
				check( s->data == want, "source_changed", "a source changed while it was copied" );
				probe( "copies by several tasks" );
			} );
			run_tasks( p, tasks );
			no_leak( 0, "copy_file left a file open" );
			state( vfs().hash() );
		}
		else if ( op.kind == "copy" )
		{
			size_t a = op.ix( 0, 7 ), b = op.ix( 1, 7 );
			const string from = files[ a ], to = files[ b ];
			auto spelled = []( const string& f, size_t how ) { return how == 1 ? "/w/." + f.substr( 2 ) : how == 2 ? "/w/" + f.substr( 2 ) : how == 3 ? "/w/sub/.." + f.substr( 2 ) : f; };
			if ( a == b )
			{
				// onto itself, maybe by another name: the file stays as it is
				string d0, d1; bool h0 = vfs().get( from, d0 );
				flut::path pf( spelled( from, op.ix( 5, 4 ) ) ), pt( spelled( to, op.ix( 4, 4 ) ) );
				i64 afired = 0; bool threw = false; string what;
				{
					CallScope c( op );
					try { flut::copy_file( pf, pt, op.i( 2 ) != 0 ); } catch ( std::exception& e ) { Pause pz; threw = true; what = e.what(); }
					afired = c.fired( c_alloc );
				}
				check( !threw || afired, "exception", "copy_file threw: " + what + " (" + from + " to itself)" );
				bool h1 = vfs().get( from, d1 );
				check( h0 == h1 && d0 == d1, "source_changed", "copying " + pf.str() + " onto itself as " + pt.str() + " changed it from " + std::to_string( d0.size() ) + " to " + std::to_string( d1.size() ) + " bytes" );
				no_leak( afired, "copy_file left a file open" );
				probe( "copy onto itself" );
				continue;
			}
			bool over = op.i( 2 ) != 0;
			for ( int attempt = 0; attempt < 2; ++attempt )
			{
				auto before = vfs().st;
				auto dst_before = vfs().node( to ) ? std::make_pair( true, *vfs().node( to ) ) : std::make_pair( false, Inode() );
				Inode* s = vfs().node( from );
				bool src_ok = s && s->type == t_file && !s->no_read;
				bool refused = !over && vfs().type( to ) != t_none;
				bool dst_ok = vfs().type( to ) == t_file ? !dst_before.second.no_write : ( vfs().type( to ) == t_none && b != 5 );
				string want = src_ok ? s->data : "";
				bool ok = false, threw = false; i64 fired = 0, afired = 0; string what;
				std::vector<Fault> none;
				flut::path pf( spelled( from, op.ix( 5, 4 ) ) ), pt( spelled( to, op.ix( 4, 4 ) ) );
				{
					CallScope c( attempt ? none : op.f );
					try { ok = flut::copy_file( pf, pt, over ); }
					catch ( std::exception& e ) { Pause pz; threw = true; what = e.what(); }
					fired = c.fired(); afired = c.fired( c_alloc );
				}
				string at = " (" + from + " to " + to + ( over ? ", overwrite" : "" ) + ")";
				ev( "copy" + at + ( threw ? " threw" : ok ? " true" : " false" ) );
				check( !threw || afired, "exception", "copy_file threw: " + what + at );
				// nothing but the destination may change
				for ( size_t o = 0; o < files.size(); ++o )
				{
					if ( o == b ) continue;
					int x = 0; string d0, d1; Vfs old; old.st = before; bool h0 = old.get( files[ o ], d0 ), h1 = vfs().get( files[ o ], d1 ); (void)x;
					check( h0 == h1 && d0 == d1, o == a ? "source_changed" : "other_file_changed", files[ o ] + " changed during the copy" + at );
				}
				Inode* d = vfs().node( to );
				bool same = ( d != nullptr ) == dst_before.first && ( !d || ( d->type == dst_before.second.type && d->data == dst_before.second.data ) );
				if ( !src_ok || refused )
				{
					check( !ok || threw, "refused_accepted", string( "a copy that cannot be done reported success" ) + at );
					check( same, "destination_touched", string( src_ok ? "overwriting was off" : "the source cannot be opened" ) + " but the destination changed" + at );
					probe( refused ? "overwrite refused" : "source cannot be opened" );
					break;
				}
				if ( ok && !threw )
				{
					check( d && d->type == t_file && d->data == want, "success_different", "the copy reported success but the destination holds " + std::to_string( d ? d->data.size() : 0 ) + " bytes that are not the " + std::to_string( want.size() ) + " source bytes" + at );
					check( dst_ok, "impossible_copy", "copy to a place that cannot be written reported success" + at );
					if ( fired ) probe( "fault but copied" );
					if ( want.empty() ) probe( "empty file copied" );
				}
				else if ( !dst_ok ) { probe( "impossible destination" ); check( same, "destination_touched", "the copy failed on a protected destination but changed it" + at ); break; }
				else
				{
					check( fired > 0, attempt ? "retry_failed" : "spurious_failure", "the copy reported failure although nothing failed" + at );
					probe( "fault reported" );
				}
				no_leak( afired, "copy_file left a file open" );
				state( vfs().hash() );
				if ( ( ok && !threw ) || !op.i( 3 ) ) break;
				if ( attempt == 0 ) refused = !over && vfs().type( to ) != t_none;
			}
		}
	}
}
