// A plan is one complete test case: configuration, workload, faults, schedule.
#pragma once
#include "kern.h"
#include "rt.h"
#include <map>
#include <string>
#include <vector>

struct Op {
	std::string actor;
	std::vector<std::string> a;
};
struct Phase {
	std::vector<Op> ops;
	std::vector<std::string> checks;  // evaluated after the phase has settled
};
struct CbScript {
	std::string listener;
	int nth;
	std::vector<std::string> a;
};
struct Plan {
	std::string property;
	std::map<std::string, std::string> cfg;
	std::vector<std::vector<std::string>> init;
	std::vector<Phase> phases;
	std::vector<CbScript> cbs;
	std::vector<kern::Fault> faults;
	rt::SchedSpec sched;
	std::string expect;	 // violation class recorded in a replay file

	std::string get( const std::string& k, const std::string& d = "" ) const {
		auto it = cfg.find( k );
		return it == cfg.end() ? d : it->second;
	}
	long num( const std::string& k, long d = 0 ) const {
		auto it = cfg.find( k );
		return it == cfg.end() ? d : atol( it->second.c_str() );
	}
	std::string print() const;
	static bool parse( const std::string& text, Plan& out, std::string& err );
	size_t opCount() const;
};

std::vector<std::string> splitWs( const std::string& s );

// builds a random plan for a property
Plan generate( const std::string& property, rt::u64 seed );
std::vector<std::string> properties();
std::string rule( const std::string& property );

// executes the plan in this process; never returns
[[noreturn]] void runPlan( const Plan& p, bool trace, rt::EndFn end );
