#pragma once
#include "sim.hpp"
#include <unordered_set>
namespace sim
{
	struct RunState {
		u64 trace = 1;
		i64 events = 0, yields = 0, preemptions = 0, fault_total = 0;
		bool nontriv = false, verbose = false;
		std::vector<std::string> log;
		std::map< std::string, i64 > probes, faults;
		i64 calls[ c_count ] = {};
		size_t max_states = 400000;
		std::unordered_set<u64> states, inter;
	};
	extern RunState g_run;
	extern bool g_active;
	void vfs_config( u64 io_seed );
}
