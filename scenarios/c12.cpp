// C12: file logs under crashes, full disks and failing writes.
#include "common.hpp"
#include "flut/system/log.hpp"
#include "flut/system/path.hpp"
#include "flut/system/log_sink.hpp"
using namespace sim; using namespace scen;
namespace lg = flut::log;

const char* scen_id = "C12";
static const int slots = 3;

void scen_gen( Rng& r, Plan& p, bool thorough )
{
	p.cfg[ "io_seed" ] = r.chance( 0.6 ) ? (i64)( r.next() >> 2 ) : 0;
	double crash = r.chance( 0.5 ) ? r.unit() * 0.3 : 0, bad = r.chance( 0.6 ) ? r.unit() * 0.2 : 0;
	int n = (int)r.range( 4, thorough ? 80 : 40 );
	for ( int i = 0; i < n; ++i )
	{
		double k = r.unit(); i64 s = r.below( slots );
		if ( k < 0.12 || i == 0 )
		{
			auto& op = p.add( "new", { s, r.range( 1, 4 ), r.chance( 0.05 ), r.chance( 0.5 ) ? 0 : (i64)r.range( 1, 3 ) } ); // the last: use an existing file again
			if ( r.chance( bad ) ) op.f.push_back( Fault{ "open", 1, r.chance( 0.5 ) ? "EMFILE" : "EACCES", 0 } );
			if ( r.chance( crash ) ) op.f.push_back( Fault{ "mut", r.logrange( 2 ), "crash", (i64)r.below( 10000 ) } );
		}
		else if ( k < 0.18 ) { auto& op = p.add( "del", { s } ); if ( r.chance( bad ) ) op.f.push_back( Fault{ "close", 1, r.chance( 0.5 ) ? "EIO" : "ENOSPC", 0 } ); }
		else
		{
			auto& op = p.add( "msg", { r.range( 1, 6 ), (i64)r.below( 3 ) }, { random_text( r, (int)r.below( 6 ), r.chance( 0.05 ) ? 20000 : r.chance( 0.2 ) ? 2000 : 30 ) } );
			if ( r.chance( bad ) )
			{
				if ( r.chance( 0.4 ) ) op.f.push_back( Fault{ "cap", 1, "full", r.chance( 0.2 ) ? 0 : r.logrange( 300 ) - 1 } );
				else
				{
					if ( r.chance( 0.5 ) ) op.f.push_back( Fault{ "write", 1, "part", (i64)r.below( 60 ) } );
					op.f.push_back( Fault{ "write", op.f.empty() ? r.logrange( 4 ) : 2, r.pick<string>( { "ENOSPC", "EIO", "EDQUOT", "ENOSPC+" } ), 0 } );
				}
			}
			if ( r.chance( crash ) ) op.f.push_back( Fault{ "mut", r.logrange( 4 ), "crash", (i64)r.below( 10000 ) } );
		}
	}
}

struct Slot { std::unique_ptr< lg::file_sink > s; string file; int level = 1; };

void scen_run( const Plan& p )
{
	vfs().mkdirs( "/w" );
	vfs().put( "/w/old1", "a line of an older log\nanother\n" ); vfs().put( "/w/old2", string( 5000, 'o' ) ); vfs().put( "/w/old3", "" );
	Slot sl[ slots ];
	struct Log { string accepted; size_t safe = 0; bool closed = false; }; // everything accepted, of which 'safe' bytes were logged with a good sink
	std::map< string, Log > logs;
	std::ostringstream other; string other_want;
	lg::stream_sink watch( lg::trace_level, other );
	int files = 0;
	auto verify = [&]( const VfsState& st, const string& pending, const string& when ) {
		Vfs v; v.st = st;
		for ( auto& l : logs )
		{
			string d; bool have = v.get( l.first, d );
			if ( !have ) { check( l.second.safe == 0, "lost", l.first + " is missing " + when ); continue; }
			string all = l.second.accepted;
			check( d.size() >= l.second.safe, "lost", l.first + " holds " + std::to_string( d.size() ) + " bytes " + when + " but " + std::to_string( l.second.safe ) + " had been logged" );
			check( all.compare( 0, d.size(), d ) == 0 && d.size() <= all.size(), "not_a_prefix", l.first + " is not the beginning of its messages " + when + ": it ends in " + show( d.substr( d.size() > 60 ? d.size() - 60 : 0 ) ) + " where " + show( all.substr( 0, 400 ) ) + " was logged" );
		}
	};
	bool dead = false;
	auto crash_check = [&]( const string& when ) {
		if ( !vfs().crashed ) return;
		probe( "crash" );
		verify( vfs().crash_state, "", "after a crash " + when );
		vfs().crashed = false; // that was another possible end; this history goes on
	};
	for ( auto& op : p.ops )
	{
		Slot& s = sl[ op.ix( 0, slots ) ];
		if ( op.kind == "new" )
		{
			s.s.reset();
			verify( vfs().st, "", "after its sink was destroyed" );
			s.file = op.i( 2 ) ? "/w/missing/x" : op.i( 3 ) > 0 ? "/w/old" + std::to_string( op.ix( 3, 4 ) ) : "/w/log" + std::to_string( ++files );
			for ( auto& x : sl ) if ( x.s && x.file == s.file && !op.i( 2 ) ) s.file = "/w/log" + std::to_string( ++files ); // one sink per file
			s.level = 1 + (int)op.ix( 1, 6 );
			flut::path fp( s.file ); i64 fired;
			string before; bool existed = vfs().get( s.file, before ); if ( existed ) probe( "an existing file is used again" );
			logs.erase( s.file ); // judged below
			{ CallScope c( op ); s.s.reset( new lg::file_sink( (lg::level)s.level, fp ) ); fired = c.fired( c_open ); }
			bool could = !fired && !op.i( 2 );
			check( s.s->good() == could, could ? "not_good" : "good", s.file + string( could ? " could be opened but the sink is not good" : " could not be opened but the sink is good" ) );
			if ( !could ) probe( "file could not be opened" );
			if ( vfs().crashed ) { Vfs v; v.st = vfs().crash_state; string d; if ( v.get( s.file, d ) ) check( d.empty() || ( existed && d == before ), "crash_at_open", "after a crash while the log was opened " + s.file + " holds " + show( d.substr( 0, 60 ) ) ); else check( !existed, "lost", s.file + " vanished in a crash while the log was opened" ); }
			crash_check( "while the log was opened" );
			if ( could ) logs[ s.file ] = Log(); // starts empty
			else if ( existed ) { check( vfs().data( s.file ) == before, "lost", s.file + " could not be opened and was changed" ); }
		}
		else if ( op.kind == "del" )
		{
			{ CallScope c( op ); s.s.reset(); }
			crash_check( "while the log was closed" );
		}
		else if ( op.kind == "msg" )
		{
			int l = 1 + (int)op.ix( 0, 6 ); string m = op.str( 0 ); auto lv = (lg::level)l;
			if ( op.ix( 1, 3 ) == 2 ) { string q; for ( char c : m ) if ( c ) q += c; m = q.substr( 0, 990 ); }
			bool was_good[ slots ];
			// from here on the message may be in the file, from the next line on it must
			for ( int i = 0; i < slots; ++i ) { auto& x = sl[ i ]; was_good[ i ] = x.s && x.s->good() && l >= x.level; if ( was_good[ i ] ) logs[ x.file ].accepted += m + "\n"; }
			other_want += m + "\n";
			i64 hard, crashes;
			{
				CallScope c( op );
				if ( op.ix( 1, 3 ) == 0 ) lg::message( lv, m ); else if ( op.ix( 1, 3 ) == 1 ) lg::log_string( lv, m ); else lg::messagef( lv, "%s", m.c_str() );
				hard = c.fired( c_write ); 
			}
			crash_check( "while a message was logged" );
			int bad = 0;
			for ( int i = 0; i < slots; ++i ) if ( was_good[ i ] )
			{
				auto& x = sl[ i ]; auto& lo = logs[ x.file ];
				string d = vfs().data( x.file );
				if ( x.s->good() ) { lo.safe = lo.accepted.size(); check( d.size() == lo.accepted.size(), "good_but_lost", x.file + " holds " + std::to_string( d.size() ) + " bytes but its sink is good and " + std::to_string( lo.accepted.size() ) + " bytes were logged" ); }
				else { ++bad; probe( d.size() > lo.safe ? "torn message" : "failed message" ); }
			}
			// "part" alone is a short write that must be continued
			if ( bad ) check( hard > 0, "not_good", "a sink is not good although no write failed" );
			check( other.str() == other_want, "other_sink", "another sink missed a message" );
		}
		verify( vfs().st, "", "after " + op.kind );
		ev( op.kind ); state( vfs().hash() );
	}
	for ( auto& s : sl ) { s.s.reset(); }
	verify( vfs().st, "", "at the end" );
	check( vfs().open_files() == 0, "descriptor_leak", "a log file was left open" );
}
