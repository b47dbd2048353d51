// Runs one registered search algorithm of the repository on an instrumented
// domain and returns the record of that run.
#pragma once
#include "trace.hpp"

struct AlgSpec {
	std::string name;			// argv[1]
	std::vector<std::string> args;	// further arguments
	std::vector<const char*> argv() const {
		std::vector<const char*> v;
		v.push_back("harness");
		v.push_back(name.c_str());
		for (auto &a : args) v.push_back(a.c_str());
		return v;
	}
};

// Result as JSON fields.  idof maps a domain state to its 1-based id, opof maps
// (state, op) to the 1-based operator index at that state (0 if there is none).
template<class D, class IdOf, class OpOf>
std::string resjson(SearchAlgorithm<D> *a, bool runaway, const std::vector<int> &ev, IdOf idof, OpOf opof) {
	std::vector<int> path, ops;
	auto &res = a->res;
	std::vector<typename D::State> states(res.path.begin(), res.path.end());
	for (long i = (long) states.size()-1; i >= 0; i--) path.push_back(idof(states[i]));
	for (long i = (long) res.ops.size()-1; i >= 0; i--)
		ops.push_back(i + 1 < (long) states.size() ? opof(states[i+1], res.ops[i]) : 0);
	return Obj().arr("path", path).arr("ops", ops).n("expd", res.expd).n("gend", res.gend)
		.n("dups", res.dups).n("reopn", res.reopnd).b("runaway", runaway).raw("ev", evjson(ev)).done();
}
