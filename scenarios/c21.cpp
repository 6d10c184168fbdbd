// C21: labelled table under refused operations and failing memory.
#include "common.hpp"
#include "flut/table.hpp"
#include <sstream>
using namespace sim; using namespace scen;

const char* scen_id = "C21";

static const char* names[] = { "a", "b", "speed", "a rather long label of a row or column that needs memory", "r1", "r2", "r3", "c1", "c2", "another label that is too long for the small buffer" };
static const size_t name_count = sizeof( names ) / sizeof( *names );

void scen_gen( Rng& r, Plan& p, bool thorough )
{
	double bad = r.chance( 0.3 ) ? 0 : r.unit() * 0.5;
	p.cfg[ "strings" ] = r.chance( 0.4 );
	int nn = (int)r.range( 2, name_count );
	static const vector<string> kinds = { "row", "row", "col", "col", "getrow", "getcol", "resize", "shrink", "set", "set", "setl", "setl", "getl", "bad_ix", "text", "copy", "fresh" };
	vector<double> w; for ( auto& k : kinds ) w.push_back( k == "fresh" || k == "copy" ? 0.12 : r.unit() );
	double sum = 0; for ( double x : w ) sum += x;
	int n = (int)r.range( 5, thorough ? 120 : 60 );
	for ( int i = 0; i < n; ++i )
	{
		double x = r.unit() * sum; size_t k = 0; while ( k + 1 < kinds.size() && x > w[ k ] ) x -= w[ k++ ];
		auto& op = p.add( kinds[ k ], { (i64)r.below( nn ), (i64)r.below( nn ), r.range( -9, 99 ), (i64)r.below( 12 ), (i64)r.below( 12 ), (i64)r.below( 1000 ) } );
		if ( r.chance( bad ) ) op.f.push_back( Fault{ "alloc", r.logrange( 14 ), r.chance( 0.3 ) ? "fail+" : "fail", 0 } );
	}
}

template< typename T > struct Model {
	vector<string> rl, cl; vector< vector<T> > cells;
	static size_t find( const vector<string>& v, const string& l ) { for ( size_t i = 0; i < v.size(); ++i ) if ( !l.empty() && v[ i ] == l ) return i; return flut::no_index; }
	void grow( size_t nr, size_t nc, const T& v ) { rl.resize( nr ); cl.resize( nc ); for ( auto& r : cells ) r.resize( nc, v ); cells.resize( nr, vector<T>( nc, v ) ); }
};

static u64 hv( double d ) { return (u64)(i64)( d * 4 ); }
static u64 hv( const string& s ) { return hash_str( 1, s ); }
static string sv( double d ) { return std::to_string( d ); }
static string sv( const string& s ) { return show( s, 60 ); }
static void mk( i64 n, double& d ) { d = n * 0.25; }
static void mk( i64 n, string& s ) { s = "value number " + std::to_string( n ) + ( n % 2 ? " which is long enough to need memory" : "" ); }

template< typename T > void compare( const flut::table<T>& t, const Model<T>& m, const string& at )
{
	size_t nr = m.rl.size(), nc = m.cl.size();
	check( t.row_size() == nr && t.column_size() == nc, "dimensions", at + ": " + std::to_string( t.row_size() ) + " rows and " + std::to_string( t.column_size() ) + " columns instead of " + std::to_string( nr ) + " and " + std::to_string( nc ) );
	auto labels = [&]( const flut::data_header<string>& h, const vector<string>& v, const char* w )
	{
		check( h.size() == v.size(), "labels", at + ": wrong number of labels" );
		for ( size_t i = 0; i < v.size(); ++i )
		{
			check( h[ i ] == v[ i ], "labels", at + ": " + w + " " + std::to_string( i ) + " is labelled " + show( h[ i ] ) + " instead of " + show( v[ i ] ) );
			if ( !v[ i ].empty() ) check( h.find( v[ i ] ) == i, "find", at + ": " + w + " " + v[ i ] + " is found at " + std::to_string( (i64)h.find( v[ i ] ) ) + " instead of " + std::to_string( i ) );
		}
		for ( size_t k = 0; k < name_count; ++k ) if ( Model<T>::find( v, names[ k ] ) == flut::no_index ) check( h.find( names[ k ] ) == flut::no_index, "find", at + ": " + w + " " + names[ k ] + " is found although there is none" );
	};
	labels( t.row_labels(), m.rl, "row" ); labels( t.col_labels(), m.cl, "column" );
	for ( size_t r = 0; r < nr; ++r ) for ( size_t c = 0; c < nc; ++c )
	{
		string cell = at + ": cell " + std::to_string( r ) + "," + std::to_string( c );
		check( t( r, c ) == m.cells[ r ][ c ], "value", cell + " is " + sv( t( r, c ) ) + " instead of " + sv( m.cells[ r ][ c ] ) );
		if ( !m.rl[ r ].empty() && !m.cl[ c ].empty() ) check( &t( m.rl[ r ], m.cl[ c ] ) == &t( r, c ), "value", cell + " is another one by label" );
	}
}

template< typename T > void run( const Plan& p )
{
	typedef flut::table<T> Tab;
	std::unique_ptr<Tab> t( new Tab ); Model<T> m; size_t n = 0;
	for ( auto& op : p.ops )
	{
		string la = names[ op.ix( 0, name_count ) ], lb = names[ op.ix( 1, name_count ) ]; T v; mk( op.i( 2 ), v ); size_t a = op.ix( 3, 64 ), b = op.ix( 4, 64 ); i64 z = op.i( 5 );
		size_t nr = m.rl.size(), nc = m.cl.size(), fr = m.find( m.rl, la ), fc = m.find( m.cl, lb );
		string at = "op " + std::to_string( n++ ) + " " + op.kind;
		Model<T> want = m; bool refuse = false, may_refuse = false; size_t idx = 0, want_idx = 0; bool cmp_idx = false, extra_r = false, extra_c = false, cmp_got = false; T got = T(), expect = T();
		std::unique_ptr<Tab> other; std::ostringstream text; std::function< void() > act;
		if ( nr * nc > 2000 && op.kind == "resize" ) continue;
		auto addrow = [&]( const T& d ) { want.grow( nr + 1, want.cl.size(), d ); want.rl[ nr ] = la; want_idx = nr; extra_r = cmp_idx = true; };
		auto addcol = [&]( const T& d ) { want.grow( want.rl.size(), nc + 1, d ); want.cl[ nc ] = lb; want_idx = nc; extra_c = cmp_idx = true; };
		if ( op.kind == "row" ) { refuse = fr != flut::no_index; if ( !refuse ) addrow( z % 3 ? v : T() ); if ( z % 3 ) act = [&] { idx = t->add_row( la, v ); }; else act = [&] { idx = t->add_row( la ); }; }
		else if ( op.kind == "col" ) { refuse = fc != flut::no_index; if ( !refuse ) addcol( z % 3 ? v : T() ); if ( z % 3 ) act = [&] { idx = t->add_column( lb, v ); }; else act = [&] { idx = t->add_column( lb ); }; }
		else if ( op.kind == "getrow" ) { cmp_idx = true; if ( fr == flut::no_index ) addrow( v ); else want_idx = fr; act = [&] { idx = t->get_or_add_row( la, v ); }; }
		else if ( op.kind == "getcol" ) { cmp_idx = true; if ( fc == flut::no_index ) addcol( v ); else want_idx = fc; act = [&] { idx = t->get_or_add_column( lb, v ); }; }
		else if ( op.kind == "resize" ) { size_t r2 = nr + ( z % 3 ? a % 4 : 0 ), c2 = nc + ( z % 4 ? b % 4 : 0 ); bool fill = z % 5 < 3; want.grow( r2, c2, fill ? v : T() ); act = [&, r2, c2, fill] { if ( fill ) t->resize( r2, c2, v ); else t->resize( r2, c2 ); }; }
		else if ( op.kind == "shrink" )
		{
			size_t r2 = nr, c2 = nc; if ( z % 2 && nr ) r2 = nr - 1 - a % nr; else if ( nc ) c2 = nc - 1 - b % nc; else continue;
			if ( z % 5 == 0 ) { if ( r2 < nr ) c2 += 2; else r2 += 2; }
			refuse = true; act = [&, r2, c2] { t->resize( r2, c2 ); };
		}
		else if ( op.kind == "set" ) { if ( !nr || !nc ) continue; a %= nr; b %= nc; want.cells[ a ][ b ] = v; act = [&] { ( *t )( a, b ) = std::move( v ); }; }
		else if ( op.kind == "setl" )
		{
			if ( fr == flut::no_index ) { addrow( T() ); fr = nr; }
			if ( fc == flut::no_index ) { addcol( T() ); fc = nc; }
			cmp_idx = false;
			want.cells[ fr ][ fc ] = v; act = [&] { ( *t )( la, lb ) = std::move( v ); };
		}
		else if ( op.kind == "getl" )
		{
			if ( fr == flut::no_index || fc == flut::no_index ) refuse = true; else { cmp_got = true; expect = m.cells[ fr ][ fc ]; }
			act = [&] { const T& r = ( (const Tab&)*t )( la, lb ); Pause pz; got = r; };
		}
		else if ( op.kind == "bad_ix" )
		{
			size_t r = nr, c = nc; switch ( z % 4 ) { case 0: c = nc ? b % nc : 0; break; case 1: r = nr ? a % nr : 0; c += b; break; case 2: r = (size_t)-1; break; default: r += a; }
			refuse = true; act = [&, r, c] { if ( a % 2 ) ( *t )( r, c ) = T(); else ( (const Tab&)*t )( r, c ); };
		}
		else if ( op.kind == "text" ) { if ( !op.f.empty() ) continue; act = [&] { text << *t; }; }
		else if ( op.kind == "copy" ) { act = [&] { if ( z % 2 ) other.reset( new Tab( *t ) ); else { other.reset( new Tab( 1, 2 ) ); *other = *t; } }; }
		else if ( op.kind == "fresh" ) { want = Model<T>(); want.grow( a % 4, b % 4, T() ); act = [&] { other.reset( new Tab( a % 4, b % 4 ) ); }; }
		else continue;
		bool threw = false; string what; i64 fired;
		{
			CallScope c( op );
			try { act(); }
			catch ( std::bad_alloc& ) { Pause pz; threw = true; what = "out of memory"; }
			catch ( std::exception& e ) { Pause pz; threw = true; what = e.what(); }
			fired = c.fired();
		}
		ev( at + ( threw ? " " + what : " ok" ) );
		if ( threw && !fired ) check( refuse, "spurious_error", at + " failed although nothing is wrong: " + what );
		if ( !threw ) check( !refuse, "not_refused", at + " was accepted although it has to be refused" );
		probe( threw && fired ? string( "memory ran out" ) : ( threw ? "refused " : "did " ) + op.kind );
		if ( !threw )
		{
			if ( cmp_idx ) check( idx == want_idx, "index", at + " returned index " + std::to_string( idx ) + " instead of " + std::to_string( want_idx ) );
			if ( cmp_got ) check( got == expect, "value", at + " gave " + sv( got ) + " instead of " + sv( expect ) );
			m = want;
			if ( op.kind == "copy" )
			{
				compare( *other, m, at + " (the copy)" );
				if ( nr && nc ) { T keep = ( *t )( 0, 0 ); mk( 12345, ( *t )( 0, 0 ) ); compare( *other, m, at + " (the copy after a change of the original)" ); ( *t )( 0, 0 ) = keep; }
				if ( z % 3 == 0 ) t = std::move( other );
			}
			if ( op.kind == "fresh" ) t = std::move( other );
			if ( op.kind == "text" )
			{
				std::ostringstream o; o << "Row"; for ( auto& l : m.cl ) o << "\t" << l; o << "\n";
				for ( size_t r = 0; r < nr; ++r ) { o << m.rl[ r ]; for ( auto& c : m.cells[ r ] ) o << "\t" << c; o << "\n"; }
				check( text.str() == o.str(), "text", at + ": written out as " + show( text.str() ) + " instead of " + show( o.str() ) );
			}
		}
		else if ( fired && !refuse )
		{
			// running out of memory may leave an extra row or column, labelled or not
			size_t r2 = nr, c2 = nc;
			if ( extra_r && t->row_size() == nr + 1 ) r2 = nr + 1;
			if ( extra_c && t->column_size() == nc + 1 ) c2 = nc + 1;
			if ( r2 != nr || c2 != nc )
			{
				probe( "extra row or column" );
				m.grow( r2, c2, T() );
				if ( r2 > nr ) { m.rl[ nr ] = t->row_labels()[ nr ]; check( m.rl[ nr ].empty() || m.rl[ nr ] == la, "labels", at + " left a row labelled " + show( m.rl[ nr ] ) ); }
				if ( c2 > nc ) { m.cl[ nc ] = t->col_labels()[ nc ]; check( m.cl[ nc ].empty() || m.cl[ nc ] == lb, "labels", at + " left a column labelled " + show( m.cl[ nc ] ) ); }
				for ( size_t r = 0; r < r2; ++r ) for ( size_t c = 0; c < c2; ++c ) if ( r >= nr || c >= nc ) m.cells[ r ][ c ] = ( *t )( r, c );
			}
		}
		compare( *t, m, at + ( threw ? " (failed)" : "" ) );
		u64 h = nr; for ( auto& r : m.cells ) for ( auto& c : r ) h = mix( h ^ hv( c ) ); for ( auto& l : m.rl ) h = hash_str( h, l ); for ( auto& l : m.cl ) h = hash_str( h, l );
		state( h );
	}
	nontrivial();
}

void scen_run( const Plan& p ) { if ( p.c( "strings" ) ) run< string >( p ); else run< double >( p ); }
