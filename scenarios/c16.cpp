// C16: sleep under interruptions and clock steps; date strings in any time zone.
#include "common.hpp"
#include "flut/system_tools.hpp"
#include <ctime>
using namespace sim; using namespace scen;

const char* scen_id = "C16";
static const vector<string> zones = { "UTC0", "EST5EDT,M3.2.0,M11.1.0", "CET-1CEST,M3.5.0,M10.5.0/3", "<+0545>-5:45", "<-03>3", "<+14>-14", "NZST-12NZDT,M9.5.0,M4.1.0/3", "<-0930>9:30" };
static const vector<string> formats = { "%Y-%m-%d_%H.%M.%S", "%Y", "%H:%M", "%d.%m.%y", "%j", "%A %B %e", "%I%p", "plain", "", "%%", "%Y%m%d", "%w %U", "%H.%M.%S", "%s", "%a, %d %b %Y %T %z", "%x %X", "The time is now %H hours, %M minutes and %S seconds of the day number %j in the year of %Y, a %A in %B", string( 300, '-' ) + "%Y" + string( 700, '=' ) + "%H", "%c %c %c %c %c %c %c %c %c %c %c %c %c %c", "\n%t%n%D%F%R%r%C%g%G%V%u%h" };

void scen_gen( Rng& r, Plan& p, bool thorough )
{
	p.cfg[ "tick_ns" ] = r.chance( 0.7 ) ? 0 : (i64)r.below( 1000000 );
	p.cfg[ "epoch_ns" ] = r.chance( 0.3 ) ? 1500000000000000000LL : (i64)( r.next() >> 3 ) % 4102444800000000000LL;
	int n = (int)r.range( 2, thorough ? 40 : 20 );
	double intr = r.unit();
	for ( int i = 0; i < n; ++i )
	{
		double k = r.unit();
		if ( k < 0.45 )
		{
			static const vector<i64> special = { 0, 1, 999, 1000, 1001, 60000, 86400000, 2147483647, -1, -2147483647 - 1, 2147484 };
			auto& op = p.add( "sleep", { r.chance( 0.3 ) ? r.pick( special ) : r.logrange( 1000000 ) } );
			if ( r.chance( intr ) )
			{
				int m = (int)r.range( 1, 6 );
				for ( int j = 1; j <= m; ++j )
				{
					double q = r.unit();
					if ( q < 0.7 ) op.f.push_back( Fault{ "sleep", j, "EINTR", (i64)( r.next() >> 2 ) } );
					else if ( q < 0.85 ) op.f.push_back( Fault{ "sleep", j, "jump", r.range( -100000000000LL, 100000000000LL ) } );
					else op.f.push_back( Fault{ "sleep", j, "late", r.logrange( 1000000000LL ) } );
				}
			}
		}
		else if ( k < 0.55 ) p.add( "zone", { (i64)r.below( zones.size() ) } );
		else if ( k < 0.65 ) p.add( "jump", { r.chance( 0.5 ) ? r.range( -4000000000LL, 4000000000LL ) : r.range( -200, 200 ) * 86400000000000LL } );
		else if ( k < 0.72 ) p.add( "wait", { (i64)( r.next() >> ( 10 + r.below( 50 ) ) ) } );
		else p.add( "date", { (i64)r.below( formats.size() ), (i64)r.chance( 0.2 ) } );
	}
}

static string expect( i64 real, const string& f )
{
	time_t t = real / 1000000000; if ( real < 0 && real % 1000000000 ) --t;
	struct tm tm; localtime_r( &t, &tm );
	char b[ 4000 ]; b[ 0 ] = 0; size_t n = strftime( b, sizeof b, f.c_str(), &tm );
	return string( b, n );
}

void scen_run( const Plan& p )
{
	setenv( "TZ", "UTC0", 1 ); tzset();
	for ( auto& op : p.ops )
	{
		if ( op.kind == "zone" ) { setenv( "TZ", zones[ op.ix( 0, zones.size() ) ].c_str(), 1 ); tzset(); }
		else if ( op.kind == "jump" ) { if ( clk().real + op.i( 0 ) > 0 ) { clk().jump( op.i( 0 ) ); note_fault( op.i( 0 ) < 0 ? "clock:set-back" : "clock:set-forward" ); } }
		else if ( op.kind == "wait" ) { i64 n = op.i( 0 ); if ( n > 0 && clk().real < 4102444800000000000LL && n < 1000000000000000000LL ) clk().advance( n ); }
		else if ( op.kind == "sleep" )
		{
			i64 ms = op.i( 0 ); if ( ms > 2147483647 ) ms = 2147483647; if ( ms < -2147483648LL ) ms = -2147483648LL;
			i64 a = clk().mono, s0 = clk().slept, late = 0; int jumps = 0; i64 fired, calls;
			for ( auto& f : op.f ) { if ( f.act == "late" ) late += f.arg < 0 ? -f.arg : f.arg; if ( f.act == "jump" ) ++jumps; }
			{ CallScope c( op ); flut::sleep( (int)ms ); fired = c.fired(); calls = c.count( c_sleep ); }
			i64 took = clk().mono - a;
			ev( "sleep " + std::to_string( ms ) + " took " + std::to_string( took ) );
			string at = "sleep( " + std::to_string( ms ) + " ) took " + std::to_string( took ) + " ns";
			if ( ms > 0 ) check( took >= ms * 1000000LL, "too_short", at );
			i64 most = ( ms > 0 ? ms * 1000000LL : 0 ) + late + 50 * ( clk().tick + 1000 ) + 1000000;
			check( took <= most, "too_long", at );
			if ( fired ) probe( "interrupted sleep" ); 
			probe( ms <= 0 ? "no time to sleep" : "slept" );
			state( hash_bytes( (u64)ms, &took, sizeof took ) );
		}
		else if ( op.kind == "date" )
		{
			string f = formats[ op.ix( 0, formats.size() ) ], got; bool def = op.i( 1 ) != 0;
			if ( def ) f = formats[ 0 ];
			i64 a = clk().real;
			{ CallScope c( op ); got = def ? flut::get_date_time_str() : flut::get_date_time_str( f.c_str() ); }
			i64 b = clk().real; bool ok = false;
			for ( i64 t = a; !ok; t += 500000000 ) { if ( t > b ) t = b; ok = got == expect( t, f ); if ( t == b ) break; }
			ev( "date " + got );
			check( ok, "date", "the date string of format " + show( f ) + " in zone " + getenv( "TZ" ) + " is " + show( got ) + " instead of " + show( expect( b, f ) ) );
			probe( "date string" ); state( hash_str( 1, got ) );
		}
	}
}
