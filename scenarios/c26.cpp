// C26: histories of test results, reports and resets while reporting fails; counts add up and failures decide the result.
#include "common.hpp"
#include "flut/system/log.hpp"
#include "flut/system/path.hpp"
#include "flut/system/log_sink.hpp"
#include "flut/system/test_framework.hpp"
using namespace sim; using namespace scen;
namespace lg = flut::log;

const char* scen_id = "C26";
static const int frames = 3; // 0: the global one

void scen_gen( Rng& r, Plan& p, bool thorough )
{
	p.cfg[ "io_seed" ] = r.chance( 0.3 ) ? (i64)( r.next() >> 2 ) : 0;
	p.cfg[ "level" ] = r.chance( 0.7 ) ? 1 : r.range( 1, 7 );
	p.cfg[ "file" ] = r.chance( 0.3 );
	bool faults = r.chance( 0.6 );
	double ok = r.chance( 0.2 ) ? 1 : r.chance( 0.2 ) ? 0 : r.unit();
	int nf = (int)r.range( 1, frames );
	int n = (int)r.range( 3, thorough ? 80 : 40 );
	for ( int i = 0; i < n; ++i )
	{
		double k = r.unit(); i64 f = r.below( nf );
		if ( k < 0.08 ) p.add( "reset", { f } );
		else if ( k < 0.13 ) p.add( "show", { f, (i64)r.below( 2 ) } );
		else if ( k < 0.16 ) p.add( "many", { f, r.logrange( 3000 ), (i64)( ok * 1000 ) , (i64)( r.next() >> 2 ) } );
		else
		{
			bool rep = k < 0.28;
			// test <framework> <result> <way: plain, with message, macro, macro with message> <sink throws>
			auto& op = rep ? p.add( "report", { f } ) : p.add( "test", { f, (i64)r.chance( ok ), (i64)r.below( 4 ), (i64)( faults && r.chance( 0.15 ) ) }, { random_text( r, (int)r.below( 6 ), r.chance( 0.1 ) ? 2000 : 30 ), random_text( r, (int)r.below( 6 ), r.chance( 0.1 ) ? 2000 : 30 ) } );
			if ( rep ) op.n.push_back( 0 ), op.n.push_back( 0 ), op.n.push_back( (i64)( faults && r.chance( 0.15 ) ) );
			if ( faults && r.chance( 0.2 ) ) op.f.push_back( Fault{ "alloc", r.logrange( 12 ), "fail", 0 } );
			if ( faults && r.chance( 0.1 ) ) op.f.push_back( Fault{ "write", r.logrange( 3 ), r.chance( 0.5 ) ? "ENOSPC" : "EIO", 0 } );
		}
	}
}

/// a listed finding (run_check.py passes the keys listed in known_findings.txt): counted, and the counts put right
static bool known( const string& key )
{
	const char* e = getenv( "VERIF_KNOWN" );
	if ( !e || ( "," + string( e ) + "," ).find( "," + key + "," ) == string::npos ) return false;
	probe( "known:" + key );
	return true;
}

struct SinkError {};
struct OwnSink : lg::sink
{
	vector< std::pair< int, string > > got; bool fail = false;
	explicit OwnSink( lg::level l ) : lg::sink( l ) {}
	void send_log_message( lg::level l, const flut::string& m ) override { { Pause pz; got.emplace_back( (int)l, m ); } if ( fail ) { fail = false; throw SinkError(); } }
};

struct Model { i64 performed = 0, passed = 0, failed = 0; bool show = false; };

/// the numbers in a text, sorted
static vector<i64> numbers( const string& s )
{
	vector<i64> v; i64 n = -1;
	for ( char c : s + " " ) { if ( c >= '0' && c <= '9' ) n = ( n < 0 ? 0 : n ) * 10 + ( c - '0' ); else if ( n >= 0 ) { v.push_back( n ); n = -1; } }
	std::sort( v.begin(), v.end() );
	return v;
}

void scen_run( const Plan& p )
{
	vfs().mkdirs( "/w" );
	std::unique_ptr< lg::sink > file;
	int level = (int)p.c( "level", 1 );
	auto* own = new OwnSink( (lg::level)level ); std::unique_ptr< lg::sink > own_( own );
	if ( p.c( "file", 0 ) ) file.reset( new lg::file_sink( lg::trace_level, flut::path( "/w/log" ) ) );
	flut::test_framework mine[ frames - 1 ];
	auto fw = [&]( int i ) -> flut::test_framework& { return i == 0 ? flut::test_framework::get_instance() : mine[ i - 1 ]; };
	Model md[ frames ];
	fw( 0 ).num_tests = fw( 0 ).num_passed = fw( 0 ).num_failed = 0;
	fw( 0 ).show_passed = false;
	auto judge = [&]( const string& after ) {
		for ( int i = 0; i < frames; ++i )
		{
			auto& t = fw( i ); auto& m = md[ i ];
			string at = " after " + after + ", framework " + std::to_string( i ) + ": " + std::to_string( t.num_tests ) + " performed, " + std::to_string( t.num_failed ) + " failed, " + std::to_string( t.num_passed ) + " passed; recorded were " + std::to_string( m.failed ) + " failed and " + std::to_string( m.passed ) + " passed";
			check( t.num_tests == t.num_passed + t.num_failed, "sum", "the counts do not add up" + at );
			check( t.num_failed == m.failed, "failed", "the number of failed tests is wrong" + at );
			check( t.num_passed == m.passed, "passed", "the number of passed tests is wrong" + at );
			check( t.show_passed == m.show, "show", "show_passed has changed" + at );
		}
	};
	for ( auto& op : p.ops )
	{
		int fi = (int)op.ix( 0, frames ); auto& t = fw( fi ); auto& m = md[ fi ];
		own->got.clear();
		if ( op.kind == "reset" )
		{
			if ( m.failed ) probe( "reset after a failed test" );
			t.reset();
			if ( m.failed && t.num_failed == m.failed && t.num_tests == m.failed && t.num_passed == m.failed && known( "reset-after-failed-test" ) ) t.num_tests = t.num_failed = t.num_passed = 0;
			m.performed = m.passed = m.failed = 0;
		}
		else if ( op.kind == "show" ) t.show_passed = m.show = op.i( 1 ) != 0;
		else if ( op.kind == "many" )
		{
			Rng r( (u64)op.i( 3 ) ); i64 n = op.i( 1 ); if ( n > 5000 ) n = 5000;
			size_t want = 0;
			for ( i64 k = 0; k < n; ++k ) { bool res = (i64)r.below( 1000 ) < op.i( 2 ); bool got = t.test( "many", res ); check( got == res, "result", "test() does not return the result" ); ++m.performed; ++( res ? m.passed : m.failed ); want += res ? m.show && lg::info_level >= level : lg::error_level >= level; }
			check( own->got.size() == want, own->got.size() < want ? "lost" : "surplus", std::to_string( own->got.size() ) + " messages were logged instead of " + std::to_string( want ) + " for many tests" );
			probe( "many tests" );
		}
		else if ( op.kind == "test" || op.kind == "report" )
		{
			bool test = op.kind == "test", res = op.i( 1 ) != 0, got = false; int way = (int)op.ix( 2, 4 ), ret = 0;
			string name = op.str( 0 ), msg = op.str( 1 ); name.erase( std::remove( name.begin(), name.end(), '\0' ), name.end() );
			if ( !test ) name = "", msg = "";
			else if ( way == 0 ) msg = "";
			else if ( way == 2 ) name = "2 > 1 == res", msg = "", fi = 0;
			else if ( way == 3 ) name = "2 > 1 == res", fi = 0;
			own->fail = op.i( 3 ) != 0;
			bool threw = false, sink_threw = false; i64 fired;
			{
				CallScope c( op );
				try
				{
					if ( !test ) ret = fi == 0 && op.i( 0 ) % 2 ? FLUT_TEST_REPORT() : t.report();
					else if ( way == 0 ) got = t.test( name.c_str(), res );
					else if ( way == 1 ) got = t.test( name.c_str(), res, msg );
					else if ( way == 2 ) got = FLUT_TEST( 2 > 1 == res );
					else got = FLUT_TEST_MSG( 2 > 1 == res, msg );
				}
				catch ( std::bad_alloc& ) { threw = true; }
				catch ( SinkError& ) { threw = sink_threw = true; }
				fired = c.fired();
			}
			i64 made = (i64)own->got.size();
			bool clean = !threw && !fired;
			check( !threw || fired || sink_threw, "spurious_error", "reporting failed although nothing else did" );
			auto& mm = md[ fi ];
			if ( test && threw && !sink_threw ) probe( "memory ran out while reporting" );
			auto& tt = fw( fi );
			if ( test && threw && tt.num_tests == mm.performed + 1 && tt.num_passed == mm.passed && tt.num_failed == mm.failed && known( "logging-throws" ) ) ++( res ? tt.num_passed : tt.num_failed );
			if ( test ) { ++mm.performed; ++( res ? mm.passed : mm.failed ); }
			if ( sink_threw ) probe( test ? ( res ? "sink threw for a passed test" : "sink threw for a failed test" ) : "sink threw in a report" );
			if ( !threw )
			{
				if ( test ) check( got == res, "result", "test() does not return the result" );
				else check( ( ret != 0 ) == ( mm.failed > 0 ), "report", "the report returns " + std::to_string( ret ) + " with " + std::to_string( mm.failed ) + " failed tests" );
			}
			// messages
			int want_level = test ? ( res ? lg::info_level : lg::error_level ) : ( mm.failed ? lg::error_level : lg::info_level );
			bool want = ( !test || !res || mm.show ) && want_level >= level;
			if ( clean || sink_threw ) check( made == want, made < want ? "lost" : "surplus", std::to_string( made ) + " messages were logged instead of " + std::to_string( want ) + " for " + op.kind );
			if ( made && !fired )
			{
				auto& g = own->got[ 0 ];
				check( g.first == want_level, "level", "a message has level " + std::to_string( g.first ) + " instead of " + std::to_string( want_level ) );
				if ( test ) check( g.second.find( name ) != string::npos && g.second.find( msg ) != string::npos, "text", "the message " + show( g.second ) + " does not have the test's name " + show( name ) + " and message " + show( msg ) );
				else { vector<i64> v = { mm.performed, mm.failed, mm.passed }; std::sort( v.begin(), v.end() ); check( numbers( g.second ) == v, "text", "the report " + show( g.second ) + " does not have the counts" ); }
			}
			own->fail = false;
			ev( op.kind + " " + std::to_string( made ) );
			if ( !clean ) nontrivial();
		}
		judge( op.kind );
		u64 h = 1; for ( auto& x : md ) h = mix( h ^ (u64)( x.passed * 7919 + x.failed * 2 + x.show ) );
		state( h );
	}
}
