#pragma once
#include "gen.h"
struct Verdict {
	std::vector<M::Finding> f;   // violations of the property the plan is about
	std::vector<M::Finding> other; // violations of other properties seen on the way
	std::vector<std::string> known; // occurrences of recorded findings
	M::Follow fl;
	bool nontrivial = false;
	std::map<std::string, long> n; // oracle evaluations
};
Verdict judge(const Plan &p, const Result &r);
