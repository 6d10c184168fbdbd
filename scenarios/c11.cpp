// C11: histories of log sinks coming, going and changing level; every message exactly once to each sink that admits it.
#include "common.hpp"
#include "flut/system/log.hpp"
#include "flut/system/path.hpp"
#include "flut/system/log_sink.hpp"
using namespace sim; using namespace scen;
namespace lg = flut::log;

const char* scen_id = "C11";
static const int slots = 6;

void scen_gen( Rng& r, Plan& p, bool thorough )
{
	p.cfg[ "io_seed" ] = r.chance( 0.4 ) ? (i64)( r.next() >> 2 ) : 0;
	int ns = (int)r.range( 1, slots );
	bool disk_faults = r.chance( 0.5 );
	i64 pref = r.range( 1, 7 ); double spread = r.unit();
	auto lvl = [&] { return r.chance( spread ) ? r.range( 1, 7 ) : pref; };
	int n = (int)r.range( 5, thorough ? 80 : 40 );
	for ( int i = 0; i < n; ++i )
	{
		double k = r.unit(); i64 s = r.below( ns );
		if ( k < 0.18 || i == 0 ) // new <slot> <kind: own, stream, file, failing stream> <level> <byte at which the stream fails>
		{
			auto& op = p.add( "new", { s, (i64)r.below( 4 ), lvl(), (i64)r.below( 200 ) } );
			if ( disk_faults && r.chance( 0.2 ) ) op.f.push_back( Fault{ "alloc", r.logrange( 10 ), "fail", 0 } );
			if ( disk_faults && r.chance( 0.1 ) ) op.f.push_back( Fault{ "open", 1, "EACCES", 0 } );
		}
		else if ( k < 0.26 ) p.add( "del", { s } );
		else if ( k < 0.32 ) p.add( "add", { s } );
		else if ( k < 0.38 ) p.add( "remove", { s } );
		else if ( k < 0.46 ) p.add( "level", { s, lvl() } );
		else if ( k < 0.50 ) p.add( "global", { lvl() } );
		else if ( k < 0.54 ) p.add( "ask", { lvl() } );
		else
		{
			// msg <level> <way>
			auto& op = p.add( "msg", { r.range( 1, 6 ), (i64)r.below( 6 ), (i64)r.range( -1000, 1000 ) }, { random_text( r, (int)r.below( 6 ), r.chance( 0.08 ) ? 1000 : r.chance( 0.2 ) ? 300 : 20 ) } );
			if ( r.chance( 0.1 ) && !op.s[ 0 ].empty() ) op.s[ 0 ][ r.below( op.s[ 0 ].size() ) ] = 0;
			if ( r.chance( 0.1 ) ) { Op same = op; int more = (int)r.logrange( 40 ); while ( more-- ) p.ops.push_back( same ); continue; } // the same message again and again
			if ( disk_faults && r.chance( 0.15 ) ) op.f.push_back( Fault{ "write", r.logrange( 3 ), r.chance( 0.5 ) ? "ENOSPC" : "EIO", 0 } );
		}
	}
}

struct OwnSink : lg::sink
{
	vector< std::pair< int, string > > got;
	explicit OwnSink( lg::level l ) : lg::sink( l ) {}
	void send_log_message( lg::level l, const flut::string& m ) override { Pause pz; got.emplace_back( (int)l, m ); }
};
struct FailBuf : std::streambuf
{
	i64 left; string data;
	explicit FailBuf( i64 n ) : left( n ) {}
	int overflow( int c ) override { Pause pz; if ( left <= 0 ) return EOF; --left; data += (char)c; return c; }
};

struct Slot
{
	std::unique_ptr< std::ostringstream > str;
	std::unique_ptr< FailBuf > buf; std::unique_ptr< std::ostream > bstr;
	std::unique_ptr< lg::sink > s; OwnSink* own = nullptr;
	int kind = 0, level = 1; bool reg = false, weak = false; // weak: its output may fail
	vector< std::pair< int, string > > want; string file;
};

void scen_run( const Plan& p )
{
	vfs().mkdirs( "/w" );
	vector<Slot> sl( slots );
	int files = 0;
	auto global = [&] { int g = lg::critical_level; for ( auto& s : sl ) if ( s.s && s.reg && s.level < g ) g = s.level; return g; };
	auto text = []( const Slot& s ) { string t; for ( auto& w : s.want ) t += w.second + "\n"; return t; };
	auto check_all = [&]( const string& after ) {
		for ( int i = 0; i < slots; ++i )
		{
			auto& s = sl[ i ]; if ( !s.s ) continue;
			string at = " after " + after + ", sink " + std::to_string( i ) + " of level " + std::to_string( s.level );
			if ( s.kind == 0 )
			{
				check( s.own->got.size() == s.want.size(), s.own->got.size() < s.want.size() ? "lost" : "surplus", "a sink got " + std::to_string( s.own->got.size() ) + " messages instead of " + std::to_string( s.want.size() ) + at );
				for ( size_t k = 0; k < s.want.size(); ++k ) check( s.own->got[ k ] == s.want[ k ], "wrong_message", "message " + std::to_string( k ) + " is " + show( s.own->got[ k ].second ) + " level " + std::to_string( s.own->got[ k ].first ) + " instead of " + show( s.want[ k ].second ) + " level " + std::to_string( s.want[ k ].first ) + at );
				continue;
			}
			string t = text( s ), g = s.kind == 1 ? s.str->str() : s.kind == 2 ? vfs().data( s.file ) : s.buf->data;
			if ( s.weak ) check( t.compare( 0, g.size(), g ) == 0, "surplus", "the output of a sink whose output fails is not the beginning of its messages" + at );
			else check( g == t, g.size() < t.size() ? "lost" : "surplus", "the output is " + show( g.substr( 0, 300 ) ) + " instead of " + show( t.substr( 0, 300 ) ) + at );
			check( (int)s.s->get_log_level() == s.level, "level", "the sink's level is " + std::to_string( s.s->get_log_level() ) + at );
		}
	};
	auto drop = [&]( Slot& s ) { s.s.reset(); s.own = nullptr; s.bstr.reset(); s.buf.reset(); s.str.reset(); s.want.clear(); s.reg = false; };
	for ( auto& op : p.ops )
	{
		Slot& s = sl[ op.ix( 0, slots ) ];
		if ( op.kind == "new" )
		{
			drop( s );
			s.kind = (int)op.ix( 1, 4 ); s.level = 1 + (int)op.ix( 2, 7 ); s.weak = s.kind == 3; s.file = "/w/log" + std::to_string( ++files );
			auto l = (lg::level)s.level;
			if ( s.kind == 1 ) s.str.reset( new std::ostringstream );
			if ( s.kind == 3 ) { s.buf.reset( new FailBuf( op.i( 3 ) ) ); s.bstr.reset( new std::ostream( s.buf.get() ) ); }
			flut::path fp( s.file ); bool threw = false; i64 fired;
			{
				CallScope c( op );
				try
				{
					if ( s.kind == 0 ) { s.own = new OwnSink( l ); s.s.reset( s.own ); }
					else if ( s.kind == 1 ) s.s.reset( new lg::stream_sink( l, *s.str ) );
					else if ( s.kind == 2 ) s.s.reset( new lg::file_sink( l, fp ) );
					else s.s.reset( new lg::stream_sink( l, *s.bstr ) );
				}
				catch ( std::bad_alloc& ) { threw = true; }
				fired = c.fired();
			}
			check( !threw || fired, "spurious_error", "a sink could not be created although nothing failed" );
			if ( threw ) { drop( s ); probe( "sink could not be created" ); }
			else { s.reg = true; if ( fired ) s.weak = true; }
			ev( "new" );
		}
		else if ( op.kind == "del" ) { if ( s.s ) probe( "sink destroyed" ); drop( s ); }
		else if ( op.kind == "add" ) { if ( s.s ) { if ( s.reg ) probe( "added twice" ); lg::add_sink( s.s.get() ); s.reg = true; } }
		else if ( op.kind == "remove" ) { if ( s.s ) { lg::remove_sink( s.s.get() ); if ( s.reg ) probe( "removed" ); s.reg = false; } }
		else if ( op.kind == "level" ) { if ( s.s ) { s.level = 1 + (int)op.ix( 1, 7 ); s.s->set_log_level( (lg::level)s.level ); probe( "level changed" ); } }
		else if ( op.kind == "global" )
		{
			int l = 1 + (int)op.ix( 0, 7 );
			lg::set_global_log_level( (lg::level)l );
			for ( auto& x : sl ) if ( x.s && x.reg ) x.level = l;
			probe( "global level set" );
		}
		else if ( op.kind == "ask" )
		{
			int g = lg::get_global_log_level();
			check( g == global(), "global_level", "the global level is reported as " + std::to_string( g ) + " instead of " + std::to_string( global() ) );
		}
		else if ( op.kind == "msg" )
		{
			int l = 1 + (int)op.ix( 0, 6 ); auto lv = (lg::level)l; int way = (int)op.ix( 1, 6 );
			string m = op.str( 0 ), want; int num = (int)op.i( 2 );
			if ( way >= 3 ) { string q; for ( char c : m ) if ( c ) q += c; m = q.substr( 0, 990 ); }
			switch ( way )
			{
			case 0: case 2: case 3: case 5: want = m; break;
			case 1: want = m + std::to_string( num ) + "x" + m; break;
			case 4: want = std::to_string( num ) + ":" + m; break;
			}
			{
				CallScope c( op );
				switch ( way )
				{
				case 0: lg::message( lv, m ); break;
				case 1: lg::message( lv, m, num, 'x', m ); break;
				case 2: lg::log_string( lv, m ); break;
				case 3: lg::messagef( lv, "%s", m.c_str() ); break;
				case 4: switch ( l ) { case 1: lg::tracef( "%d:%s", num, m.c_str() ); break; case 2: lg::debugf( "%d:%s", num, m.c_str() ); break; case 3: lg::infof( "%d:%s", num, m.c_str() ); break;
					case 4: lg::warningf( "%d:%s", num, m.c_str() ); break; case 5: lg::errorf( "%d:%s", num, m.c_str() ); break; default: lg::criticalf( "%d:%s", num, m.c_str() ); } break;
				default: switch ( l ) { case 1: lg::trace( m ); break; case 2: lg::debug( m ); break; case 3: lg::info( m ); break; case 4: lg::warning( m ); break; case 5: lg::error( m ); break; default: lg::critical( m ); }
				}
				if ( c.fired( c_write ) ) probe( "file sink could not write" );
			}
			int to = 0;
			for ( auto& x : sl ) if ( x.s && x.reg && l >= x.level ) { x.want.emplace_back( l, want ); ++to; if ( !op.f.empty() && x.kind == 2 ) x.weak = true; }
			probe( to == 0 ? "message to no sink" : to == 1 ? "message to one sink" : "message to several sinks" );
			if ( want.size() > 900 ) probe( "long message" );
			ev( "msg to " + std::to_string( to ) );
			nontrivial();
		}
		check_all( op.kind );
		u64 h = 1; for ( auto& x : sl ) h = mix( h * 64 + ( x.s ? 1 + x.reg * 2 + x.level * 4 + x.kind * 40 : 0 ) );
		state( h );
	}
	for ( auto& s : sl ) drop( s );
	// no sink is left
	lg::message( lg::critical_level, "the end" );
	check( (int)lg::get_global_log_level() == lg::critical_level, "global_level", "without sinks the global level is not the critical level" );
}
