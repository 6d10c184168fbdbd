// C01: save_prop / load_prop round trip under short and interrupted I/O and interleaved tasks.
#define SCEN_PROP_NODE
#include "common.hpp"
#include "flut/prop_node_tools.hpp"
using namespace sim; using namespace scen;

const char* scen_id = "C01";

void scen_gen( Rng& r, Plan& p, bool thorough )
{
	int swarm = (int)r.below( 4 );
	int tasks = r.chance( 0.5 ) ? 1 : (int)r.range( 2, 4 );
	p.cfg[ "tasks" ] = tasks;
	p.cfg[ "io_seed" ] = r.chance( 0.7 ) ? (i64)( r.next() >> 2 ) : 0;
	int n = (int)r.range( 2, thorough ? 16 : 9 );
	bool vk = r.chance( 0.5 );
	for ( int i = 0; i < n; ++i )
	{
		i64 slot = r.below( 2 * tasks );
		if ( r.chance( 0.15 ) ) p.add( "clear", { slot } );
		if ( r.chance( 0.8 ) ) gen_nodes( r, p, slot, swarm, r.chance( 0.1 ) ? r.below( 120 ) : r.below( 12 ), vk, r.chance( 0.05 ) ? 40 : 6 );
		// save <slot> <file> <readable>
		p.add( "save", { slot, (i64)r.below( 2 ), (i64)r.below( 2 ) } );
		if ( r.chance( 0.5 ) ) p.add( "load", { slot, (i64)r.below( 2 ) } );
	}
	if ( tasks > 1 ) { p.sched = gen_sched( r, 300, r.unit() * 0.6, tasks ); gen_fine( r, p ); }
}

void scen_run( const Plan& p )
{
	int ntasks = (int)p.c( "tasks", 1 ); if ( ntasks < 1 ) ntasks = 1;
	vfs().mkdirs( "/w" );
	vector< std::function< void() > > tasks;
	for ( int t = 0; t < ntasks; ++t ) tasks.push_back( [&p, t, ntasks]() {
		Tree slot[ 2 ];
		Tree file[ 2 ]; bool have[ 2 ] = { false, false };
		auto load = [&]( const Op& op, int f ) {
			flut::prop_node got;
			flut::path fn( "/w/task" + std::to_string( t ) + "_" + std::to_string( f ) + ".prop" );
			try { CallScope c( op ); got = flut::load_prop( fn ); }
			catch ( std::exception& e ) { fail( "load_failed", string( "loading a saved tree failed: " ) + e.what() + " tree " + show( file[ f ].text(), 300 ) ); }
			Tree g = tree_of( got );
			if ( g != file[ f ] )
				fail( "round_trip", diff( file[ f ], g ) + "; file " + show( vfs().data( fn.str() ), 160 ) );
			ev( "loaded" ); probe( "round trip" );
		};
		for ( auto& op : p.ops )
		{
			size_t s = op.ix( 0, 2 * ntasks );
			if ( (int)( s / 2 ) != t ) continue;
			Tree& tr = slot[ s % 2 ];
			if ( op.kind == "clear" ) tr = Tree();
			else if ( op.kind == "node" ) apply_node( tr, op );
			else if ( op.kind == "save" )
			{
				int f = (int)op.ix( 1, 2 );
				flut::path fn( "/w/task" + std::to_string( t ) + "_" + std::to_string( f ) + ".prop" );
				flut::prop_node pn = prop_of( tr );
				bool ok;
				{ CallScope c( op ); ok = flut::save_prop( pn, fn, op.i( 2 ) != 0 ); }
				check( ok, "save_failed", "save_prop reported failure without a fault" );
				check( tree_of( pn ) == tr, "source_changed", "saving changed the tree" );
				file[ f ] = tr; have[ f ] = true;
				state( hash_str( 1, vfs().data( fn.str() ) ) );
				if ( op.i( 2 ) ) probe( "readable layout" ); else probe( "compact layout" );
				load( op, f );
			}
			else if ( op.kind == "load" ) { int f = (int)op.ix( 1, 2 ); if ( have[ f ] ) load( op, f ); }
		}
	} );
	run_tasks( p, tasks );
}
