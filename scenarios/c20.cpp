// C20: channel storage and its header under refused operations and failing memory.
#include "common.hpp"
#include "flut/storage.hpp"
#include <sstream>
using namespace sim; using namespace scen;

const char* scen_id = "C20";

static const char* label_names[] = { "a", "b", "time", "leg_r.x", "a rather long channel label that needs memory of its own", "p.x", "p.y", "p.z", "p.w", "Z", "c1", "c2", "c3", "c4" };
static const size_t label_count = sizeof( label_names ) / sizeof( *label_names );

void scen_gen( Rng& r, Plan& p, bool thorough )
{
	double bad = r.chance( 0.3 ) ? 0 : r.unit() * 0.5;
	int names = (int)r.range( 2, label_count );
	bool small = r.chance( 0.5 );
	static const vector<string> kinds = { "chan", "chan", "chandata", "find_add", "relabel", "frame", "frame", "framedata", "framedata", "wrongframe", "resize", "shrink", "clear", "set", "set", "set", "setat", "setlast", "setlabel", "setlabel", "interp", "bad_at", "text", "copy", "fresh", "unknown", "vec", "quat", "header", "header_add", "header_set" };
	vector<double> w; for ( auto& k : kinds ) w.push_back( k == "clear" || k == "fresh" || k == "copy" ? 0.15 : r.unit() );
	double sum = 0; for ( double x : w ) sum += x;
	int n = (int)r.range( 5, thorough ? 120 : 60 );
	for ( int i = 0; i < n; ++i )
	{
		double x = r.unit() * sum; size_t k = 0; while ( k + 1 < kinds.size() && x > w[ k ] ) x -= w[ k++ ];
		auto& op = p.add( kinds[ k ], { (i64)r.below( names ), (i64)r.below( small ? 4 : 24 ), r.range( -9, 99 ), (i64)r.below( 12 ), (i64)r.below( 1000 ) } );
		if ( r.chance( bad ) ) op.f.push_back( Fault{ "alloc", r.logrange( 12 ), r.chance( 0.3 ) ? "fail+" : "fail", 0 } );
	}
}

struct Model {
	vector<string> labels; // empty: unlabelled
	vector< vector<double> > rows;
	size_t find( const string& l ) const { for ( size_t i = 0; i < labels.size(); ++i ) if ( !l.empty() && labels[ i ] == l ) return i; return flut::no_index; }
	void grow( size_t nf, size_t nc, double v ) { labels.resize( nc ); for ( auto& r : rows ) r.resize( nc, v ); rows.resize( nf, vector<double>( nc, v ) ); }
	u64 hash() const { u64 h = rows.size(); for ( auto& l : labels ) h = hash_str( h, l ); for ( auto& r : rows ) for ( double d : r ) h = mix( h ^ (u64)(i64)( d * 4 ) ); return h; }
};

typedef flut::storage< double > Sto;

static void compare( const Sto& s, const Model& m, const string& at )
{
	check( s.frame_size() == m.rows.size() && s.channel_size() == m.labels.size(), "dimensions",
		at + ": " + std::to_string( s.frame_size() ) + " frames of " + std::to_string( s.channel_size() ) + " channels instead of " + std::to_string( m.rows.size() ) + " of " + std::to_string( m.labels.size() ) );
	check( s.empty() == ( m.rows.empty() || m.labels.empty() ), "empty", at + ": empty() is wrong" );
	check( s.data().size() == m.rows.size() * m.labels.size(), "dimensions", at + ": " + std::to_string( s.data().size() ) + " values for " + std::to_string( m.rows.size() ) + " frames of " + std::to_string( m.labels.size() ) );
	for ( size_t c = 0; c < m.labels.size(); ++c )
	{
		check( s.get_label( c ) == m.labels[ c ], "label", at + ": label of channel " + std::to_string( c ) + " is " + show( s.get_label( c ) ) + " instead of " + show( m.labels[ c ] ) );
		if ( !m.labels[ c ].empty() ) check( s.find_channel( m.labels[ c ] ) == c, "find", at + ": " + m.labels[ c ] + " is found at " + std::to_string( (i64)s.find_channel( m.labels[ c ] ) ) + " instead of " + std::to_string( c ) );
		for ( size_t f = 0; f < m.rows.size(); ++f )
		{
			string cell = at + ": frame " + std::to_string( f ) + " channel " + std::to_string( c );
			check( s( f, c ) == m.rows[ f ][ c ], "value", cell + " is " + std::to_string( s( f, c ) ) + " instead of " + std::to_string( m.rows[ f ][ c ] ) );
			check( &s.at( f, c ) == &s( f, c ), "value", cell + ": at() finds another place" );
		}
		if ( !m.rows.empty() )
		{
			check( s[ c ] == m.rows.back()[ c ], "newest", at + ": newest value of channel " + std::to_string( c ) + " is wrong" );
			if ( !m.labels[ c ].empty() ) check( s( m.labels[ c ] ) == m.rows.back()[ c ], "newest", at + ": newest value of " + m.labels[ c ] + " is wrong" );
		}
	}
	for ( size_t k = 0; k < label_count; ++k ) check( m.find( label_names[ k ] ) != flut::no_index || s.find_channel( label_names[ k ] ) == flut::no_index, "find", at + ": " + label_names[ k ] + " is found although no channel has that label" );
	size_t n = 0; for ( auto& l : s.labels() ) { check( n < m.labels.size() && l == m.labels[ n ], "label", at + ": labels() is wrong" ); ++n; }
	check( n == m.labels.size() && s.labels().size() == n, "label", at + ": labels() has a wrong size" );
}

void scen_run( const Plan& p )
{
	std::unique_ptr<Sto> s( new Sto );
	Model m;
	flut::data_header<string> hdr; vector<string> hm;
	size_t nr = 0;
	for ( auto& op : p.ops )
	{
		string label = label_names[ op.ix( 0, label_count ) ]; size_t n = op.ix( 1, 100 ); double v = op.i( 2 ) * 0.25; size_t k = op.ix( 3, 64 ); i64 z = op.i( 4 );
		string at = "op " + std::to_string( nr++ ) + " " + op.kind;
		Model want = m; bool refuse = false, may_refuse = false, run = true, extra = false, old_label = false;
		size_t nc = m.labels.size(), nf = m.rows.size();
		size_t found = m.find( label ), ch = nc ? k % nc : 0, fr = nf ? n % nf : 0;
		vector<double> data; vector<string> labels;
		std::unique_ptr<Sto> other; std::unique_ptr< flut::data_header<string> > hother;
		vector<string> hwant = hm; bool hrefuse = false;
		double got = 0, expect = 0, slack = 0; bool compare_got = false; std::ostringstream text; size_t idx = 0, want_idx = 0; bool compare_idx = false;
		std::function< void() > act;
		if ( nc * nf > 4000 && ( op.kind == "resize" || op.kind == "chandata" ) ) continue;
		if ( op.kind == "chan" ) { refuse = found != flut::no_index; extra = !refuse; if ( !refuse ) { want.grow( nf, nc + 1, v ); want.labels[ nc ] = label; want_idx = nc; compare_idx = true; } act = [&] { idx = s->add_channel( label, v ); }; }
		else if ( op.kind == "chandata" )
		{
			for ( size_t i = 0; i < n; ++i ) data.push_back( v + i );
			refuse = found != flut::no_index; extra = !refuse;
			if ( !refuse ) { want.grow( std::max( nf, n ), nc + 1, 0 ); want.labels[ nc ] = label; for ( size_t i = 0; i < n; ++i ) want.rows[ i ][ nc ] = data[ i ]; want_idx = nc; compare_idx = true; }
			act = [&] { idx = s->add_channel( label, data ); };
		}
		else if ( op.kind == "find_add" ) { compare_idx = true; if ( found == flut::no_index ) { extra = true; want.grow( nf, nc + 1, v ); want.labels[ nc ] = label; want_idx = nc; } else want_idx = found; act = [&] { idx = s->find_or_add_channel( label, v ); }; }
		else if ( op.kind == "relabel" )
		{
			if ( k % 9 == 0 ) { ch = nc + n; refuse = true; }
			else if ( !nc ) continue;
			else if ( m.labels[ ch ] == label ) may_refuse = true; // either way nothing changes
			else refuse = found != flut::no_index;
			if ( !refuse ) want.labels[ ch ] = label;
			act = [&] { s->set_label( ch, label ); };
		}
		else if ( op.kind == "frame" ) { want.rows.push_back( vector<double>( nc, z % 3 ? v : 0 ) ); if ( z % 3 ) act = [&] { s->add_frame( v ); }; else act = [&] { s->add_frame(); }; }
		else if ( op.kind == "framedata" ) { for ( size_t i = 0; i < nc; ++i ) data.push_back( v * ( i + 1 ) ); want.rows.push_back( data ); act = [&] { s->add_frame( data ); }; }
		else if ( op.kind == "wrongframe" ) { for ( size_t i = 0; i < ( z % 2 || !nc ? nc + 1 + n : nc - 1 ); ++i ) data.push_back( v ); refuse = true; act = [&] { s->add_frame( data ); }; }
		else if ( op.kind == "resize" ) { size_t f2 = nf + ( z % 3 ? n % 5 : 0 ), c2 = nc + ( z % 4 ? k % 4 : 0 ); want.grow( f2, c2, v ); act = [&, f2, c2] { s->resize( f2, c2, v ); }; }
		else if ( op.kind == "shrink" )
		{
			size_t f2 = nf, c2 = nc; if ( z % 2 && nf ) f2 = nf - 1 - n % nf; else if ( nc ) c2 = nc - 1 - k % nc; else continue;
			if ( z % 5 == 0 ) { if ( f2 < nf ) c2 += 1; else f2 += 1; }
			refuse = true; act = [&, f2, c2] { s->resize( f2, c2, v ); };
		}
		else if ( op.kind == "clear" ) { want = Model(); act = [&] { s->clear(); }; }
		else if ( op.kind == "set" ) { if ( !nf || !nc ) continue; want.rows[ fr ][ ch ] = v; act = [&] { ( *s )( fr, ch ) = v; }; }
		else if ( op.kind == "setat" ) { if ( !nf || !nc ) continue; want.rows[ fr ][ ch ] = v; act = [&] { s->at( fr, ch ) = v; }; }
		else if ( op.kind == "setlast" ) { if ( !nf || !nc ) { refuse = true; } else want.rows.back()[ ch ] = v; act = [&] { ( *s )[ ch ] = v; }; }
		else if ( op.kind == "setlabel" )
		{
			if ( found == flut::no_index ) { extra = true; want.grow( nf, nc + 1, 0 ); want.labels[ nc ] = label; found = nc; }
			if ( !nf ) refuse = true; else want.rows.back()[ found ] = v;
			act = [&] { ( *s )[ label ] = v; };
		}
		else if ( op.kind == "vec" || op.kind == "quat" )
		{
			bool q = op.kind == "quat"; string base = k % 2 ? "p" : "another longer name for a vector"; extra = true; if ( !nf ) continue;
			double x = v, y = v + 1, w = v + 2, zz = v + 3;
			auto put = [&]( const string& l, double d ) { size_t i = want.find( base + l ); if ( i == flut::no_index ) { i = want.labels.size(); want.grow( nf, i + 1, 0 ); want.labels[ i ] = base + l; } want.rows.back()[ i ] = d; };
			if ( q ) put( ".w", w ); put( ".x", x ); put( ".y", y ); put( ".z", zz );
			if ( !op.f.empty() ) continue; // several steps by design
			if ( q ) act = [&, base, x, y, w, zz] { flut::math::quat_<double> qt; qt.w = w; qt.x = x; qt.y = y; qt.z = zz; write_storage( *s, base, qt ); };
			else act = [&, base, x, y, zz] { flut::math::vec3_<double> ve; ve.x = x; ve.y = y; ve.z = zz; write_storage( *s, base, ve ); };
		}
		else if ( op.kind == "interp" )
		{
			if ( !nc ) continue;
			double f = z % 6 == 0 ? (double)n + ( z % 7 ) * 0.125 : z % 6 == 1 ? -( (double)n * 0.5 ) - 0.25 : nf > 1 ? ( n % ( nf - 1 ) ) + ( k % 5 == 0 ? 0.99995 : k % 5 == 1 ? 1 - 1e-9 : k % 5 == 2 ? 1e-6 : ( z % 4 ) * 0.25 ) : 0;
			size_t f0 = (size_t)f; double wt = f - f0;
			if ( f < 0 || f > nf - 1.0 || nf == 0 ) refuse = true;
			else if ( f0 + 1 >= nf ) { may_refuse = true; expect = m.rows[ f0 ][ ch ]; compare_got = true; }
			else { expect = ( 1 - wt ) * m.rows[ f0 ][ ch ] + wt * m.rows[ f0 + 1 ][ ch ]; compare_got = true; slack = 1e-12 * ( std::abs( m.rows[ f0 ][ ch ] ) + std::abs( m.rows[ f0 + 1 ][ ch ] ) ); } // up to rounding
			act = [&, f] { got = s->get_interpolated_value( f, ch ); };
		}
		else if ( op.kind == "bad_at" )
		{
			size_t f = nf, c = nc; switch ( z % 4 ) { case 0: c = ch; break; case 1: f = fr; break; case 2: f = (size_t)-1; break; case 3: c += n; f = fr; break; }
			if ( f < nf && c < nc ) continue;
			refuse = true; act = [&, f, c] { if ( k % 2 ) s->at( f, c ) = 5; else ( (const Sto&)*s ).at( f, c ); };
		}
		else if ( op.kind == "unknown" ) { if ( found != flut::no_index ) continue; refuse = true; act = [&] { got = ( (const Sto&)*s )( label ); }; }
		else if ( op.kind == "text" ) { if ( !nc ) continue; run = op.f.empty(); if ( !run ) continue; act = [&] { text << *s; }; }
		else if ( op.kind == "copy" ) { act = [&] { if ( z % 2 ) other.reset( new Sto( *s ) ); else { other.reset( new Sto ); *other = *s; } }; }
		else if ( op.kind == "fresh" ) { size_t f2 = n % 5, c2 = k % 4; want = Model(); want.grow( f2, c2, v ); act = [&, f2, c2] { other.reset( new Sto( f2, c2, v ) ); }; }
		else if ( op.kind == "header" )
		{
			for ( size_t i = 0; i < n % 6; ++i ) labels.push_back( label_names[ ( k + i ) % label_count ] );
			hwant = labels;
			act = [&] { if ( labels.size() == 2 && z % 2 ) hother.reset( new flut::data_header<string>{ labels[ 0 ], labels[ 1 ] } ); else hother.reset( new flut::data_header<string>( labels ) ); };
		}
		else if ( op.kind == "header_add" ) { hrefuse = std::find( hm.begin(), hm.end(), label ) != hm.end(); if ( !hrefuse ) { hwant.push_back( label ); want_idx = hm.size(); compare_idx = true; } act = [&] { idx = hdr.add( label ); }; }
		else if ( op.kind == "header_set" )
		{
			if ( hm.empty() ) continue;
			size_t i = k % hm.size(); if ( hm[ i ] == label ) continue;
			hrefuse = std::find( hm.begin(), hm.end(), label ) != hm.end();
			if ( !hrefuse ) { hwant[ i ] = label; want_idx = i; compare_idx = true; }
			act = [&, i] { idx = hdr.set( i, label ); };
		}
		else continue;
		refuse = refuse || hrefuse;
		bool threw = false, memory = false; string what; i64 fired;
		{
			CallScope c( op );
			try { act(); }
			catch ( std::bad_alloc& ) { Pause pz; threw = memory = true; what = "out of memory"; }
			catch ( std::exception& e ) { Pause pz; threw = true; what = e.what(); }
			fired = c.fired();
		}
		ev( at + ( threw ? " " + what : " ok" ) );
		if ( threw && !fired ) check( refuse || may_refuse, "spurious_error", at + " failed although nothing is wrong: " + what );
		if ( !threw ) check( !refuse, "not_refused", at + " was accepted although it has to be refused" );
		if ( threw && fired ) probe( "memory ran out" ); else if ( threw ) probe( "refused " + op.kind ); else probe( "did " + op.kind );
		if ( !threw )
		{
			if ( compare_idx ) check( idx == want_idx, "index", at + " returned index " + std::to_string( idx ) + " instead of " + std::to_string( want_idx ) );
			if ( compare_got ) check( got == expect || std::abs( got - expect ) <= slack, "interpolation", at + " gave " + std::to_string( got ) + " instead of " + std::to_string( expect ) );
			m = want; hm = hwant;
			if ( op.kind == "copy" ) { compare( *other, m, at + " (the copy)" ); if ( nf && nc ) { ( *s )( 0, 0 ) += 1; compare( *other, m, at + " (the copy after a change of the original)" ); ( *s )( 0, 0 ) -= 1; } if ( z % 3 == 0 ) s = std::move( other ); }
			if ( op.kind == "fresh" ) s = std::move( other );
			if ( op.kind == "header" ) hdr = *hother;
			if ( op.kind == "text" )
			{
				std::ostringstream o;
				for ( size_t c = 0; c < nc; ++c ) o << m.labels[ c ] << ( c + 1 < nc ? "\t" : "\n" );
				for ( auto& r : m.rows ) for ( size_t c = 0; c < nc; ++c ) o << r[ c ] << ( c + 1 < nc ? "\t" : "\n" );
				check( text.str() == o.str(), "text", at + ": written out as " + show( text.str() ) + " instead of " + show( o.str() ) );
			}
		}
		else if ( extra && ( fired || !nf ) && s->channel_size() == nc + 1 )
		{
			// running out of memory (or having no frame) may leave an extra channel
			probe( "extra channel" );
			string l = s->get_label( nc );
			check( l.empty() || l == label, "label", at + " left a channel labelled " + show( l ) );
			m.grow( nf, nc + 1, 0 ); m.labels[ nc ] = l;
			for ( size_t f = 0; f < nf && s->data().size() == nf * ( nc + 1 ); ++f ) m.rows[ f ][ nc ] = ( *s )( f, nc );
		}
		compare( *s, m, at + ( threw ? " (failed)" : "" ) );
		check( hdr.size() == hm.size(), "header", at + ": header has " + std::to_string( hdr.size() ) + " labels instead of " + std::to_string( hm.size() ) );
		for ( size_t i = 0; i < hm.size(); ++i ) check( hdr[ i ] == hm[ i ] && hdr.find( hm[ i ] ) == i, "header", at + ": header label " + std::to_string( i ) + " is " + show( hdr[ i ] ) + ", " + show( hm[ i ] ) + " is found at " + std::to_string( (i64)hdr.find( hm[ i ] ) ) );
		for ( size_t k2 = 0; k2 < label_count; ++k2 ) if ( std::find( hm.begin(), hm.end(), label_names[ k2 ] ) == hm.end() ) check( hdr.find( label_names[ k2 ] ) == flut::no_index, "header", at + ": the header finds " + label_names[ k2 ] + " although it is not there" );
		state( m.hash() );
	}
	nontrivial();
}
