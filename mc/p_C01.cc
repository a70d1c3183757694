#include "gen.h"

static Gen *g;
static std::vector<int> menu;
static std::vector<Long> longs;
static std::vector<Beyond> beyonds;
static size_t n_gen, n_near, n_large, n_many, n_alias;

static Property prop = {
	.id = "C01",
	.prepare = [](const Tier &t) {
		g = new Gen();
		g->enumerate(t.thorough);
		g->enumerate_near();
		g->enumerate_large(t.thorough);
		n_gen = g->scens.size();
		n_near = n_gen + g->nears.size();
		n_large = n_near + g->larges.size();
		g->enumerate_many();
		n_many = n_large + g->manys.size();
		g->enumerate_alias();
		n_alias = n_many + g->aliases.size();
		for (int i = 0; i < A_N; i++)
			if (t.thorough || (i != A_410 && i != A_403 && i != A_503 && i != A_RESOLVE && i != A_TIMEOUT && i != A_SHORT1))
				menu.push_back(i);
		longs = Long::all(t.thorough);
		for (int n : {61, 62, 63, 64, 65, 100, 128, 129, 256, 257, 500}) {
			Long l;
			l.n = n;
			l.pat = {Long::P_ALL};
			longs.push_back(l);
			l.pat = {Long::P_EVEN, Long::P_ALL};
			l.t = 0;
			l.local = true;
			longs.push_back(l);
		}
		beyonds = Beyond::all();
		return (u64)(n_alias + longs.size() + beyonds.size());
	},
	.run = [](Exec &x) {
		World w(x);
		Result res;
		if (x.scenario < n_gen) {
			res = g->run(x, w, g->scens[x.scenario], menu);
		} else if (x.scenario < n_near) {
			res = g->run(x, w, g->nears[x.scenario - n_gen]);
		} else if (x.scenario < n_large) {
			res = g->run(x, w, g->larges[x.scenario - n_near]);
		} else if (x.scenario < n_many) {
			res = g->run(x, w, g->manys[x.scenario - n_large]);
		} else if (x.scenario < n_alias) {
			res = g->run(x, w, g->aliases[x.scenario - n_many]);
		} else if (x.scenario >= n_alias + longs.size()) {
			Beyond b = beyonds[x.scenario - n_alias - longs.size()];
			b.setup(x, w);
			res = w.run();
			x.outcome(res.ok() ? "success" : res.failed() ? "failure" : res.str());
			std::string e = res.ok() ? b.check(w) : "";
			if (!e.empty())
				x.fail("exit 0, but %s", e.c_str());
			return;
		} else {
			longs[x.scenario - n_alias].setup(x, w);
			res = w.run();
		}
		x.outcome(res.ok() ? "success" : res.failed() ? "failure" : res.str());
		if (res.ok()) {
			std::string e = w.check_image();
			if (!e.empty())
				x.fail("exit 0, but %s", e.c_str());
		}
	},
	.bound = [](const Tier &t, u64 s) { return s >= n_alias + longs.size() ? 0 : s >= n_alias ? longs[s - n_alias].bound : t.thorough && s < g->scens.size() ? 2 : 1; },
	.describe = [](u64 s) {
		return s < n_gen ? g->describe(g->scens[s]) : s < n_near ? g->describe(g->nears[s - n_gen])
			: s < n_large ? g->describe(g->larges[s - n_near]) : s < n_many ? g->describe(g->manys[s - n_large]) : s < n_alias ? g->describe(g->aliases[s - n_many]) : s < n_alias + longs.size() ? longs[s - n_alias].describe() : beyonds[s - n_alias - longs.size()].describe();
	},
	.space = "images of more than 4 GiB; long extractions whose local store changes at some read or is the target itself; entries of up to 256 KiB; entries whose ids almost are those of delivered chunks; extractions of 13 to 70000 entries with up to 24 stores whose answers follow 9 patterns; index sequences up to length 3 over 3 chunks x modifications of an index entry x initial targets x store chains; choices: every answer of "
	         "every HTTP request, changes of local stores before every read",
	.bounds = "deviations from the ideal answers per extraction: 1 (quick), 2 (thorough)",
	.timeout_s = 120,
};
static RegisterProperty reg(&prop);
