// C24: edits of property trees under failing memory, aliasing and access tracking.
#include "common.hpp"
#include "flut/prop_node.hpp"
#include "flut/prop_node_tools.hpp"
#include "flut/system/log_sink.hpp"
using namespace sim; using namespace scen;
using flut::prop_node;

const char* scen_id = "C24";

static const char* keys[] = { "a", "b", "c", "name", "a label that is too long for the small string buffer", "value1", "x", "group", "a.b" };
static const size_t nkeys = sizeof( keys ) / sizeof( *keys );

void scen_gen( Rng& r, Plan& p, bool thorough )
{
	double bad = r.chance( 0.3 ) ? 0 : r.unit() * 0.5;
	static const vector<string> kinds = { "set_value", "set", "set", "set_int", "push", "push", "push_many", "push_value", "push_tree", "push_moved", "push_child", "push_moved_child", "push_self", "set_tree", "set_self", "set_child",
		"insert", "erase", "erase", "clear", "assign", "assign_move", "assign_child", "assign_moved_child", "assign_to_child", "assign_value", "set_delim", "set_delim", "index", "merge", "merge_child", "merge_parent", "reserve",
		"read", "read", "get_key", "get_key", "get_def", "get_any", "get_delim", "try_child", "try_delim", "get_child", "get_ix", "has", "select", "pattern", "vector", "flags", "clear_flags", "log", "copy", "equal" };
	vector<double> w; for ( auto& k : kinds ) w.push_back( k == "clear" ? 0.1 : k == "clear_flags" ? 0.3 : r.chance( 0.3 ) ? 0.05 : r.unit() );
	double sum = 0; for ( double x : w ) sum += x;
	int nk = (int)r.range( 2, nkeys );
	int n = (int)r.range( 5, thorough ? 120 : 60 );
	for ( int i = 0; i < n; ++i )
	{
		double x = r.unit() * sum; size_t k = 0; while ( k + 1 < kinds.size() && x > w[ k ] ) x -= w[ k++ ];
		// slot, depth, walk, key, number, other slot, other depth, other walk
		auto& op = p.add( kinds[ k ], { (i64)r.below( 3 ), (i64)r.below( 4 ), (i64)r.below( 5000 ), (i64)r.below( nk ), (i64)r.below( 1000 ), (i64)r.below( 3 ), (i64)r.below( 3 ), (i64)r.below( 5000 ) } );
		if ( r.chance( bad ) ) op.f.push_back( Fault{ "alloc", r.logrange( 24 ), r.chance( 0.3 ) ? "fail+" : "fail", 0 } );
	}
}

enum Acc { no = 0, yes = 1, maybe = 2 };
struct Node {
	string value; vector< std::pair< string, Node > > kids; int acc = no;
	bool operator==( const Node& o ) const { return value == o.value && kids == o.kids; }
	bool operator!=( const Node& o ) const { return !( *this == o ); }
	size_t count() const { size_t n = 1; for ( auto& k : kids ) n += k.second.count(); return n; }
	size_t depth() const { size_t n = 0; for ( auto& k : kids ) n = std::max( n, k.second.depth() ); return n + 1; }
	void mark( int a ) { acc = a; for ( auto& k : kids ) k.second.mark( a ); }
	void touch() { if ( acc == no ) acc = maybe; }
	void count( size_t* n ) const { ++n[ acc ]; for ( auto& k : kids ) k.second.count( n ); }
	size_t find( const string& k ) const { size_t i = 0; while ( i < kids.size() && kids[ i ].first != k ) ++i; return i; }
	Node fresh() const { Node n( *this ); n.mark( no ); return n; }
	u64 hash() const { u64 h = hash_str( 7, value ); for ( auto& k : kids ) { h = hash_str( h, k.first ); h = mix( h ^ k.second.hash() ); } return h; }
	string text() const { string s = show( value, 20 ); if ( !kids.empty() ) { s += "{"; for ( auto& k : kids ) s += " " + k.first.substr( 0, 7 ) + ":" + k.second.text(); s += " }"; } return s; }
};
static Node model_of( const prop_node& pn ) // reads every node: only for copies
{
	Node t; t.value = pn.get_value();
	for ( auto it = pn.begin(); it != pn.end(); ++it ) t.kids.emplace_back( it->first, model_of( it->second ) );
	return t;
}
static string differ( const Node& want, const Node& got, const string& at )
{
	if ( want.value != got.value ) return at + ": value should be " + show( want.value, 40 ) + " but is " + show( got.value, 40 );
	for ( size_t i = 0; i < want.kids.size() && i < got.kids.size(); ++i )
	{
		if ( want.kids[ i ].first != got.kids[ i ].first ) return at + ": label " + std::to_string( i ) + " should be " + want.kids[ i ].first + " but is " + got.kids[ i ].first;
		string d = differ( want.kids[ i ].second, got.kids[ i ].second, at + "/" + want.kids[ i ].first.substr( 0, 7 ) ); if ( !d.empty() ) return d;
	}
	if ( want.kids.size() != got.kids.size() ) return at + ": should have " + std::to_string( want.kids.size() ) + " children but has " + std::to_string( got.kids.size() );
	return "";
}
static bool glob( const char* s, const char* p )
{
	if ( !*p ) return !*s;
	if ( *p == '*' ) return glob( s, p + 1 ) || ( *s && glob( s + 1, p ) );
	return *s && ( *p == '?' || *p == *s ) && glob( s + 1, p + 1 );
}
struct ListSink : flut::log::sink
{
	vector<string> got;
	ListSink() : flut::log::sink( flut::log::trace_level ) {}
	void send_log_message( flut::log::level, const flut::string& m ) override { Pause pz; got.push_back( m ); }
};
static void expect_log( const Node& n, int depth, vector<string>& out )
{
	for ( auto& k : n.kids )
	{
		size_t c[ 3 ] = {}; k.second.count( c );
		if ( c[ no ] )
		{
			string s = string( depth * 2, ' ' ) + k.first;
			if ( k.second.acc == no ) { if ( !k.second.value.empty() ) s += " = " + k.second.value; s += " *"; }
			out.push_back( s );
		}
		expect_log( k.second, depth + 1, out );
	}
}
static void check_flags( const prop_node& pn, const Node& n, const string& at )
{
	bool a = pn.is_accessed();
	check( n.acc == maybe || a == ( n.acc == yes ), "accessed", at + ( a ? " counts as accessed although it was not read" : " counts as not accessed although it was read" ) );
	size_t i = 0;
	for ( auto it = pn.begin(); it != pn.end(); ++it, ++i ) check_flags( it->second, n.kids[ i ].second, at + "/" + n.kids[ i ].first.substr( 0, 7 ) );
}

void scen_run( const Plan& p )
{
	prop_node t[ 3 ]; Node m[ 3 ]; size_t nr = 0;
	for ( auto& op : p.ops )
	{
		size_t slot = op.ix( 0, 3 ), oslot = op.ix( 5, 3 ); string key = keys[ op.ix( 3, nkeys ) ]; i64 num = op.i( 4 );
		string val = num % 4 == 0 ? "" : num % 4 == 1 ? std::to_string( num ) : "value " + std::to_string( num ) + ( num % 4 == 2 ? " of a property, long enough to need memory" : "" );
		string at = "op " + std::to_string( nr++ ) + " " + op.kind;
		// find the nodes worked on; going there reads the nodes on the way
		auto walk = [&]( size_t s, i64 depth, u64 way, prop_node*& pn ) -> Node*
		{
			pn = &t[ s ]; Node* n = &m[ s ];
			for ( i64 d = depth; d > 0 && !n->kids.empty(); --d ) { size_t k = way % n->kids.size(); way /= 3; pn = &pn->get_child( k ); n->acc = yes; n = &n->kids[ k ].second; }
			return n;
		};
		prop_node *pn, *po; Node* n = walk( slot, op.i( 1 ), (u64)op.i( 2 ), pn ); Node* no_ = walk( oslot, op.i( 6 ), (u64)op.i( 7 ), po );
		bool same = slot == oslot;
		if ( same && ( op.kind == "assign" || op.kind == "assign_move" || op.kind == "insert" || op.kind == "merge" || op.kind == "push_moved" || op.kind == "push_tree" || op.kind == "set_tree" ) ) continue; // aliasing has its own operations
		size_t kids = n->kids.size(), child = kids ? (size_t)num % kids : 0, f = n->find( key ); bool has = f < kids;
		if ( m[ slot ].count() + no_->count() + n->count() > 250 && op.kind != "erase" && op.kind != "clear" && op.kind.substr( 0, 3 ) != "get" ) { probe( "tree is large" ); continue; }
		if ( m[ slot ].depth() > 40 ) continue;
		Node want = *n; Node wother = *no_; bool refuse = false, wother_changed = false, maybe_all = false; vector<Node> steps; // states allowed after a failure
		string got, expect; bool cmp = false; std::function< void() > act; std::function< void() > after = [] {};
		prop_node tree; if ( op.kind == "push_tree" || op.kind == "set_tree" || op.kind == "push_moved" ) {}
		vector<string> parts; string dpath;
		auto path = [&]( string& k, vector<string>& parts ) { for ( i64 d = 0; d <= op.i( 6 ); ++d ) { string s = keys[ ( op.ix( 3, nkeys ) + d * ( num % 3 ) ) % nkeys ]; parts.push_back( s ); k += ( d ? ( num % 7 == 0 ? "/" : "." ) : "" ) + s; } };
		char delim = num % 7 == 0 ? '/' : '.';
		auto split_path = [&] { parts.clear(); size_t b = 0, e; while ( ( e = dpath.find( delim, b ) ) != string::npos ) { parts.push_back( dpath.substr( b, e - b ) ); b = e + 1; } parts.push_back( dpath.substr( b ) ); };
		if ( op.kind == "set_value" ) { want.value = val; if ( num % 3 ) act = [&] { pn->set_value( val ); }; else act = [&] { string v; { Pause pz; v = val; } pn->set_value( std::move( v ) ); }; }
		else if ( op.kind == "assign_value" ) { want = Node(); want.value = val; want.acc = maybe; act = [&] { if ( num % 2 ) *pn = val; else pn->set( val ); }; }
		else if ( op.kind == "set" || op.kind == "set_int" )
		{
			want.touch(); bool in = op.kind == "set_int"; Node k; k.value = in ? std::to_string( num ) : val; k.acc = has ? maybe : no;
			if ( has ) want.kids[ f ].second = k; else want.kids.emplace_back( key, k );
			act = [&, in] { if ( in ) pn->set( key, (int)num ); else pn->set( key, val ); };
		}
		else if ( op.kind == "push" ) { want.kids.emplace_back( key, Node() ); act = [&] { pn->push_back( key ); }; }
		else if ( op.kind == "push_many" )
		{
			steps.push_back( want ); size_t cnt = 5 + num % 40;
			for ( size_t i = 0; i < cnt; ++i ) { Node k; k.value = std::to_string( i ); want.kids.emplace_back( keys[ i % nkeys ], k ); steps.push_back( want ); }
			act = [&, cnt] { for ( size_t i = 0; i < cnt; ++i ) pn->push_back( keys[ i % nkeys ], (int)i ); };
		}
		else if ( op.kind == "push_value" ) { Node k; k.value = val; want.kids.emplace_back( key, k ); act = [&] { pn->push_back( key, val ); }; }
		else if ( op.kind == "push_tree" ) { want.kids.emplace_back( key, no_->fresh() ); act = [&] { pn->push_back( key, (const prop_node&)*po ); }; }
		else if ( op.kind == "push_moved" ) { Node k = *no_; k.acc = maybe; want.kids.emplace_back( key, k ); wother = Node(); wother.acc = maybe; wother_changed = true; act = [&] { pn->push_back( key, std::move( *po ) ); }; after = [&] { po->clear(); }; }
		else if ( op.kind == "push_child" ) { if ( !kids ) continue; want.acc = yes; want.kids.emplace_back( key, n->kids[ child ].second.fresh() ); act = [&] { pn->push_back( key, (const prop_node&)pn->get_child( child ) ); }; }
		else if ( op.kind == "push_moved_child" ) { if ( !kids ) continue; want.acc = yes; Node k = n->kids[ child ].second; k.acc = maybe; want.kids.emplace_back( key, k ); want.kids[ child ].second = Node(); want.kids[ child ].second.acc = maybe; act = [&] { pn->push_back( key, std::move( pn->get_child( child ) ) ); }; after = [&] { pn->get_child( child ).clear(); }; }
		else if ( op.kind == "push_self" ) { want.kids.emplace_back( key, n->fresh() ); act = [&] { pn->push_back( key, (const prop_node&)*pn ); }; }
		else if ( op.kind == "set_tree" || op.kind == "set_self" || op.kind == "set_child" )
		{
			if ( op.kind == "set_child" && !kids ) continue;
			want.touch(); Node k = ( op.kind == "set_tree" ? *no_ : op.kind == "set_self" ? *n : n->kids[ child ].second ).fresh(); k.acc = has ? maybe : no;
			if ( op.kind == "set_child" && has && f == child ) k.mark( maybe ); // to itself: still the same nodes, or new ones
			if ( has ) want.kids[ f ].second = k; else want.kids.emplace_back( key, k );
			const prop_node* src = op.kind == "set_tree" ? po : op.kind == "set_self" ? pn : &pn->get_child( child ); if ( op.kind == "set_child" ) n->acc = want.acc = yes;
			act = [&, src] { pn->set( key, *src ); };
		}
		else if ( op.kind == "insert" )
		{
			size_t ok = no_->kids.size(), a = ok ? num % ( ok + 1 ) : 0, b = a + ( ok > a ? ( num / 7 ) % ( ok - a + 1 ) : 0 ), pos = kids ? ( num / 3 ) % ( kids + 1 ) : 0;
			want.touch(); wother.touch(); no_->touch();
			vector< std::pair< string, Node > > ins; for ( size_t i = a; i < b; ++i ) ins.emplace_back( no_->kids[ i ].first, no_->kids[ i ].second.fresh() );
			want.kids.insert( want.kids.begin() + pos, ins.begin(), ins.end() );
			act = [&, a, b, pos] { const prop_node& c = *po; if ( num % 4 == 0 ) { pn->reserve( kids + b - a ); } prop_node::const_iterator it; if ( num % 2 ) it = pn->insert( pn->cbegin() + pos, c.begin() + a, c.begin() + b ); else it = pn->insert( pn->begin() + pos, c.begin() + a, c.begin() + b ); Pause pz; if ( a < b ) got = std::to_string( it - pn->cbegin() ), expect = std::to_string( pos ), cmp = true; };
		}
		else if ( op.kind == "erase" ) { if ( !kids ) continue; want.touch(); want.kids.erase( want.kids.begin() + child ); act = [&] { auto it = pn->erase( pn->begin() + child ); Pause pz; got = std::to_string( it - pn->begin() ); expect = std::to_string( child ); cmp = true; }; }
		else if ( op.kind == "clear" ) { want.value.clear(); want.kids.clear(); act = [&] { pn->clear(); }; }
		else if ( op.kind == "assign" ) { want = no_->fresh(); want.acc = maybe; act = [&] { if ( num % 2 ) *pn = (const prop_node&)*po; else pn->set( (const prop_node&)*po ); }; }
		else if ( op.kind == "assign_move" ) { want = *no_; want.acc = maybe; wother = Node(); wother.acc = maybe; wother_changed = true; act = [&] { if ( num % 2 ) *pn = std::move( *po ); else pn->set( std::move( *po ) ); }; after = [&] { po->clear(); }; }
		else if ( op.kind == "assign_child" ) { if ( !kids ) continue; want = n->kids[ child ].second.fresh(); want.acc = maybe; n->acc = yes; act = [&] { const prop_node& c = pn->get_child( child ); *pn = c; }; }
		else if ( op.kind == "assign_moved_child" ) { if ( !kids ) continue; want = Node( n->kids[ child ].second ); want.acc = maybe; n->acc = yes; act = [&] { prop_node& c = pn->get_child( child ); *pn = std::move( c ); }; }
		else if ( op.kind == "assign_to_child" ) { if ( !kids ) continue; want.acc = n->acc = yes; want.kids[ child ].second = n->fresh(); want.kids[ child ].second.acc = maybe; act = [&] { prop_node& c = pn->get_child( child ); c = (const prop_node&)*pn; }; }
		else if ( op.kind == "set_delim" )
		{
			path( dpath, parts ); split_path(); Node* x = &want; steps.push_back( want );
			for ( size_t i = 0; i < parts.size(); ++i )
			{
				x->touch(); size_t g = x->find( parts[ i ] ); bool last = i + 1 == parts.size();
				if ( g == x->kids.size() ) x->kids.emplace_back( parts[ i ], Node() ); else x->kids[ g ].second.touch();
				x = &x->kids[ g ].second;
				if ( last ) { if ( x->acc == yes ) x->acc = maybe; x->kids.clear(); x->value = val; } else steps.push_back( want );
			}
			act = [&] { pn->set_delimited( dpath, val, delim ); };
		}
		else if ( op.kind == "index" ) { want.touch(); if ( !has ) want.kids.emplace_back( key, Node() ); else want.kids[ f ].second.touch(); cmp = true; expect = std::to_string( f ); act = [&] { prop_node& r = ( *pn )[ key ]; Pause pz; size_t i = 0; for ( auto& c : *pn ) { if ( &c.second == &r ) break; ++i; } got = std::to_string( i ); }; }
		else if ( op.kind == "merge" || op.kind == "merge_child" || op.kind == "merge_parent" )
		{
			bool over = num % 2; if ( op.kind != "merge" && !kids ) continue;
			Node src = op.kind == "merge" ? *no_ : op.kind == "merge_child" ? n->kids[ child ].second : *n;
			maybe_all = true;
			Node* dst = op.kind == "merge_parent" ? &want.kids[ child ].second : &want; want.acc = maybe; dst->acc = maybe; if ( op.kind == "merge_child" ) want.kids[ child ].second.touch(); steps.push_back( want );
			for ( auto& k : src.kids )
			{
				size_t g = dst->find( k.first );
				if ( g == dst->kids.size() ) dst->kids.emplace_back( k.first, k.second.fresh() ); else if ( over ) { dst->kids[ g ].second = k.second.fresh(); dst->kids[ g ].second.acc = maybe; } else dst->kids[ g ].second.touch();
				steps.push_back( want );
			}
			if ( op.kind == "merge" ) { wother.touch(); no_->touch(); }
			act = [&, over] { if ( op.kind == "merge" ) merge_prop_nodes( *pn, *po, over ); else if ( op.kind == "merge_child" ) merge_prop_nodes( *pn, pn->get_child( child ), over ); else merge_prop_nodes( pn->get_child( child ), *pn, over ); };
		}
		else if ( op.kind == "reserve" ) act = [&] { pn->reserve( num % 30 ); };
		// reading
		else if ( op.kind == "read" ) { want.acc = yes; cmp = true; expect = n->value; act = [&] { got = num % 2 ? pn->get_value() : pn->get< string >(); }; }
		else if ( op.kind == "get_key" ) { refuse = !has; if ( has ) { want.acc = yes; want.kids[ f ].second.acc = yes; cmp = true; expect = n->kids[ f ].second.value; } act = [&] { got = pn->get< string >( key ); }; }
		else if ( op.kind == "get_def" ) { want.touch(); cmp = true; expect = "default"; if ( has ) { want.kids[ f ].second.acc = yes; expect = n->kids[ f ].second.value; } act = [&] { got = pn->get< string >( key, "default" ); }; }
		else if ( op.kind == "get_any" )
		{
			string k2 = keys[ num % nkeys ]; size_t g = n->find( k2 ); want.touch(); cmp = true; bool def = num % 2; size_t h = has ? f : g; expect = "default";
			if ( h < kids ) { want.kids[ h ].second.acc = yes; expect = n->kids[ h ].second.value; } else if ( !def ) refuse = true;
			const string dflt = "default"; // making the list of keys is the caller's business: no faults there
			act = [&, k2, def, dflt] { alignas( Pause ) char b[ sizeof( Pause ) ]; Pause* hold = new ( b ) Pause; std::initializer_list< string > list = { key, k2 }; hold->~Pause(); if ( def ) got = pn->get_any< string >( list, dflt ); else got = pn->get_any< string >( list ); };
		}
		else if ( op.kind == "get_delim" || op.kind == "try_delim" )
		{
			path( dpath, parts ); split_path(); Node* x = &want; bool ok = true, tr = op.kind == "try_delim";
			for ( size_t i = 0; i < parts.size() && ok; ++i ) { size_t g = x->find( parts[ i ] ); if ( g == x->kids.size() ) { x->touch(); ok = false; } else { x->acc = yes; x = &x->kids[ g ].second; if ( i + 1 == parts.size() ) x->acc = yes; else if ( tr ) x->acc = yes; } }
			cmp = true; expect = ok ? x->value : "none"; refuse = !ok && !tr;
			act = [&, tr] { if ( tr ) { auto c = ( (const prop_node*)pn )->try_get_child_delimited( dpath, delim ); Pause pz; got = c ? c->get_value() : "none"; } else got = pn->get_delimited< string >( dpath, delim ); };
		}
		else if ( op.kind == "try_child" )
		{
			want.acc = yes; cmp = true; expect = "none"; if ( has ) { want.kids[ f ].second.acc = yes; expect = n->kids[ f ].second.value; }
			act = [&] { static const prop_node none( string( "none" ) ); const prop_node* c = num % 3 == 0 ? pn->try_get_child( key ) : num % 3 == 1 ? ( (const prop_node*)pn )->try_get_child( key ) : &( (const prop_node*)pn )->try_get_child( key, none ); Pause pz; got = c ? c->get_value() : "none"; };
		}
		else if ( op.kind == "get_child" ) { refuse = !has; if ( has ) { want.acc = yes; want.kids[ f ].second.acc = yes; cmp = true; expect = n->kids[ f ].second.value; } else want.touch(); act = [&] { const prop_node& c = num % 3 == 0 ? pn->get_child( key ) : num % 3 == 1 ? ( (const prop_node*)pn )->get_child( key ) : ( *(const prop_node*)pn )[ key ]; Pause pz; got = c.get_value(); }; }
		else if ( op.kind == "get_ix" )
		{
			size_t i = num % 3 == 0 ? kids + num % 5 : kids ? child : 0; refuse = i >= kids; if ( !refuse ) { want.acc = yes; want.kids[ i ].second.acc = yes; cmp = true; expect = n->kids[ i ].first + "=" + n->kids[ i ].second.value; } else want.touch();
			act = [&, i] { const prop_node& c = num % 2 ? pn->get_child( i ) : ( (const prop_node*)pn )->get_child( i ); const string& k = pn->get_key( i ); Pause pz; got = k + "=" + c.get_value(); check( &c == &( *pn )[ flut::index_t( i ) ], "index", at + ": operator[] finds another child" ); };
		}
		else if ( op.kind == "has" )
		{
			want.touch(); cmp = true; expect = string( has ? "1" : "0" ) + ( has && !n->kids[ f ].second.value.empty() ? "1" : "0" ) + ( n->value.empty() ? "0" : "1" ) + ( n->value.empty() && !kids ? "1" : "0" ) + std::to_string( kids );
			act = [&] { string r = string( pn->has_key( key ) ? "1" : "0" ) + ( pn->has_value( key ) ? "1" : "0" ) + ( pn->has_value() ? "1" : "0" ) + ( pn->empty() ? "1" : "0" ) + std::to_string( pn->size() ); Pause pz; got = r; };
		}
		else if ( op.kind == "select" || op.kind == "pattern" )
		{
			bool pat = op.kind == "pattern"; static const char* pats[] = { "*", "a*", "*e", "?", "*a*", "value?", "name", "*x*", "a?label*", "zz" }; string pt = pats[ num % 10 ];
			want.mark( maybe ); cmp = true; for ( auto& k : n->kids ) if ( pat ? glob( k.first.c_str(), pt.c_str() ) : k.first == key ) expect += k.first + "=" + k.second.value + ";";
			act = [&, pat, pt] { string r; if ( pat ) for ( auto& e : pn->select_pattern( pt ) ) { Pause pz; r += e.first + "=" + e.second.get_value() + ";"; } else for ( auto& e : pn->select( key ) ) { Pause pz; r += e.first + "=" + e.second.get_value() + ";"; } Pause pz; got = r; };
		}
		else if ( op.kind == "vector" )
		{
			// a child holding a list of texts, written and read back
			vector<string> v; for ( i64 i = 0; i < num % 5; ++i ) v.push_back( ( num + i ) % 7 == 0 ? string() : val + std::to_string( i ) );
			want.touch(); Node k; for ( size_t i = 0; i < v.size(); ++i ) { Node e; e.value = v[ i ]; k.kids.emplace_back( "item" + std::to_string( i ), e ); } k.acc = has ? maybe : no;
			if ( has ) want.kids[ f ].second = k; else want.kids.emplace_back( key, k );
			act = [&, v] { pn->set( key, v ); };
			after = [&, v] {
				prop_node c( *pn ); check( c.get< vector<string> >( key ) == v, "vector", at + ": the list is not read back as written" );
				vector<int> w; for ( size_t i = 0; i < v.size(); ++i ) w.push_back( int( num % 1000 - 500 ) * int( i + 1 ) );
				prop_node l; l.push_back( "l", w ); check( l.get< vector<int> >( "l" ) == w, "vector", at + ": the list of numbers is not read back as written" );
			};
		}
		else if ( op.kind == "flags" ) { act = [&] { check_flags( t[ slot ], m[ slot ], at + ": root" ); }; op.f.empty(); if ( !op.f.empty() ) continue; }
		else if ( op.kind == "clear_flags" ) { act = [&] { pn->clear_accessed_recursively(); }; want.mark( no ); }
		else if ( op.kind == "log" )
		{
			size_t c[ 3 ] = {}; n->count( c ); if ( c[ maybe ] || !op.f.empty() ) continue;
			vector<string> ex; expect_log( *n, 0, ex ); want.mark( yes ); probe( "log of unaccessed nodes" );
			act = [&, ex] { Pause pz; ListSink s; log_unaccessed( *pn ); check( s.got == ex, "unaccessed_log", at + ": " + std::to_string( s.got.size() ) + " nodes are logged as not accessed instead of " + std::to_string( ex.size() ) + ( ex.empty() ? "" : ", first should be " + show( ex[ 0 ] ) ) + ( s.got.empty() ? "" : ", first is " + show( s.got[ 0 ] ) ) ); };
		}
		else if ( op.kind == "copy" )
		{
			cmp = true; expect = "0"; maybe_all = true; want.mark( maybe );
			act = [&] {
				prop_node c( *pn ); Pause pz;
				got = std::to_string( (i64)( c.count_unaccessed() - n->count() ) );
				Node w = *n; string d = differ( w, model_of( c ), "copy" ); check( d.empty(), "copy", at + ": " + d );
				vector<string> all = c.get< vector<string> >(), wall; for ( auto& k : n->kids ) wall.push_back( k.second.value );
				check( all == wall, "list", at + ": read as a list, the node has " + std::to_string( all.size() ) + " elements of " + std::to_string( wall.size() ) + ", or other ones" );
				c.set( "changed", 1 ); if ( c.size() > 1 ) c.get_child( size_t( 0 ) ).set_value( string( "other" ) );
				prop_node c2( (const prop_node*)pn ), c3( (const prop_node*)nullptr ), c4( std::move( c2 ) ); check( c3.empty(), "copy", at + ": copy of nothing is not empty" );
				d = differ( w, model_of( c4 ), "moved copy" ); check( d.empty(), "copy", at + ": " + d );
			};
		}
		else if ( op.kind == "equal" )
		{
			want.touch(); wother.touch(); no_->touch(); bool eq = *n == *no_; act = [&, eq] { bool e = *pn == *po, ne = *pn != *po; Pause pz; check( e == eq && ne == !eq, "equality", at + ( e ? ": different trees compare equal" : ": equal trees compare different" ) ); prop_node c( *pn ); check( c == *pn, "equality", at + ": a copy compares different" ); };
		}
		else continue;
		bool threw = false; string what; i64 fired;
		{
			CallScope c( op );
			try { act(); }
			catch ( std::bad_alloc& ) { Pause pz; threw = true; what = "out of memory"; }
			catch ( std::exception& e ) { Pause pz; threw = true; what = e.what(); }
			fired = c.fired();
		}
		ev( at + ( threw ? " " + what : " ok" ) );
		if ( threw && !fired ) check( refuse, "spurious_error", at + " failed although nothing is wrong: " + what );
		if ( !threw ) check( !refuse, "not_refused", at + " was accepted although there is no " + key );
		probe( threw && fired ? string( "memory ran out" ) : ( threw ? "refused " : "did " ) + op.kind );
		if ( !threw )
		{
			if ( op.kind == "flags" ) m[ slot ].mark( yes );
			else
			{
				*n = want; if ( wother_changed ) { *no_ = wother; }
				after();
				if ( op.kind == "push_moved_child" ) n->acc = yes;
				if ( cmp ) check( got == expect, "read", at + " gave " + show( got, 80 ) + " instead of " + show( expect, 80 ) );
			}
		}
		else if ( fired )
		{
			n->mark( maybe ); if ( !same ) no_->mark( maybe );
			if ( !steps.empty() )
			{
				Node now = model_of( prop_node( *pn ) ); bool ok = false;
				for ( auto& s : steps ) if ( s == now ) { *n = s; n->mark( maybe ); ok = true; break; }
				check( ok, "partial_edit", at + " ran out of memory and left " + now.text().substr( 0, 200 ) + ", which is no step between " + steps.front().text().substr( 0, 200 ) + " and " + want.text().substr( 0, 200 ) );
			}
		}
		else { n->touch(); for ( auto& k : n->kids ) k.second.touch(); if ( op.kind == "get_delim" || op.kind == "get_any" ) n->mark( maybe ); }
		for ( int s = 0; s < 3; ++s )
		{
			prop_node c( t[ s ] ); string d = differ( m[ s ], model_of( c ), "tree " + std::to_string( s ) );
			check( d.empty(), threw ? "changed_by_failure" : "tree", at + ( threw ? " (failed): " : ": " ) + d );
			size_t k[ 3 ] = {}; m[ s ].count( k ); size_t u = t[ s ].count_unaccessed();
			check( u >= k[ no ] && u <= k[ no ] + k[ maybe ], "accessed", at + ": tree " + std::to_string( s ) + " has " + std::to_string( u ) + " nodes that count as not accessed, should be " + std::to_string( k[ no ] ) + ( k[ maybe ] ? " to " + std::to_string( k[ no ] + k[ maybe ] ) : "" ) );
			state( m[ s ].hash() );
		}
	}
	nontrivial();
}
