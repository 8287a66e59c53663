// Decides satisfiability of conjunctions of literals of the bit graph.
//   1. rewriting: a conjunct that canonicalised to FALSE
//   2. witnesses: 256 simulation lanes (only ever used to answer SAT, with a model)
//   3. z3 (C++ API) on the cone of the query
//   4. SAT sweeping of the cone with z3, then z3 again
// Every model is re-evaluated on the graph before it is believed.
#pragma once
#include "bits.h"
#include <z3++.h>
#include <array>
#include <chrono>
#include <cstdio>
#include <functional>
#include <map>
#include <set>

struct Solver {
	Graph &g;
	double deadline = 1e300;	// of the whole run
	double timeLimit = 60;		// per z3 call, seconds
	// statistics
	uint64_t qTotal = 0, qRewrite = 0, qWitness = 0, qZ3Sat = 0, qZ3Unsat = 0, qUnknown = 0;
	uint64_t qModelCache = 0;
	uint64_t sweepRuns = 0, sweepMerges = 0;
	double z3Time = 0;
	uint64_t maxCone = 0;
	// models found earlier: up to 256, evaluated 64 at a time
	static const int POOLW = 4;
	std::vector<std::array<uint64_t, POOLW>> pool;	// per input bit
	unsigned poolN = 0;
	uint64_t splits = 0, swTried = 0, swUnk = 0;
	std::vector<Lit> mergeConds;	// conditions on which states were joined
	std::string dumpDir;
	int dumpMax = 0, dumped = 0;

	explicit Solver(Graph &g) : g(g) {}

	enum R { UNSAT, SAT, UNKNOWN };

	static double now()
	{
		return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
	}

	// evaluate literals under an assignment of input bits
	void evalCone(const std::vector<Lit> &lits, const std::vector<uint8_t> &as, std::unordered_map<uint32_t, uint8_t> &val)
	{
		std::vector<uint32_t> cone;
		collect(lits, cone);
		for (uint32_t n : cone) {
			const Graph::Node &nd = g.nodes[n];
			uint8_t v = 0;
			switch (nd.k) {
			case Graph::CONST: v = 0; break;
			case Graph::VAR: v = nd.a < as.size() ? as[nd.a] : 0; break;
			case Graph::AND:
				v = (val[nd.a >> 1] ^ (nd.a & 1)) & (val[nd.b >> 1] ^ (nd.b & 1));
				break;
			case Graph::XOR:
				for (uint32_t i = 0; i < nd.b; i++) v ^= val[g.xarena[nd.a + i]];
				break;
			case Graph::LUT: {
				const auto &d = g.luts[nd.a];
				int o = 0;
				for (int i = 0; i < d.n; i++) o |= val[d.leaf[i]] << i;
				v = Graph::ttBit(d.t, o);
				break;
			}
			}
			val[n] = v;
		}
	}
	bool evalAll(const std::vector<Lit> &lits, const std::vector<uint8_t> &as)
	{
		std::unordered_map<uint32_t, uint8_t> val;
		evalCone(lits, as, val);
		for (Lit l : lits) if (!((l >> 1 ? val[l >> 1] : 0) ^ (l & 1))) return false;
		return true;
	}

	std::vector<uint32_t> mark;
	uint32_t markGen = 0;
	void collect(const std::vector<Lit> &lits, std::vector<uint32_t> &cone)
	{
		mark.resize(g.nodes.size(), 0);
		markGen++;
		std::vector<uint32_t> st;
		for (Lit l : lits) if (l >> 1 && mark[l >> 1] != markGen) { mark[l >> 1] = markGen; st.push_back(l >> 1); }
		while (!st.empty()) {
			uint32_t n = st.back(); st.pop_back();
			cone.push_back(n);
			const Graph::Node &nd = g.nodes[n];
			auto push = [&](uint32_t c) { if (c && mark[c] != markGen) { mark[c] = markGen; st.push_back(c); } };
			if (nd.k == Graph::AND) { push(nd.a >> 1); push(nd.b >> 1); }
			else if (nd.k == Graph::XOR) for (uint32_t i = 0; i < nd.b; i++) push(g.xarena[nd.a + i]);
			else if (nd.k == Graph::LUT) for (int i = 0; i < g.luts[nd.a].n; i++) push(g.luts[nd.a].leaf[i]);
		}
		std::sort(cone.begin(), cone.end());
	}

	uint8_t defaultBit(uint32_t v) const { return g.nodes[g.varNode[v]].sim[2] >> 7 & 1; }
	void remember(const std::vector<uint8_t> &as)
	{
		while (pool.size() < g.nvars) {
			std::array<uint64_t, POOLW> a;
			for (int w = 0; w < POOLW; w++) a[w] = g.nodes[g.varNode[pool.size()]].sim[(w + 1) % Graph::SIMW];
			pool.push_back(a);
		}
		unsigned i = poolN++ % (64 * POOLW);
		for (uint32_t v = 0; v < g.nvars; v++) {
			uint64_t &x = pool[v][i / 64], b = 1ULL << i % 64;
			if (v < as.size() && as[v]) x |= b; else x &= ~b;
		}
	}
	std::vector<std::array<uint64_t, POOLW>> pv;
	bool poolModel(const std::vector<Lit> &lits, std::vector<uint8_t> &as)
	{
		if (!poolN) return false;
		std::vector<uint32_t> cone;
		collect(lits, cone);
		pv.resize(g.nodes.size());
		pv[0] = {};
		int W = std::min<int>(POOLW, (poolN + 63) / 64);
		for (uint32_t n : cone) {
			const Graph::Node &nd = g.nodes[n];
			for (int w = 0; w < W; w++) {
				uint64_t v = 0;
				switch (nd.k) {
				case Graph::CONST: break;
				case Graph::VAR: v = nd.a < pool.size() ? pool[nd.a][w] : nd.sim[(w + 1) % Graph::SIMW]; break;
				case Graph::AND:
					v = (pv[nd.a >> 1][w] ^ -uint64_t(nd.a & 1)) & (pv[nd.b >> 1][w] ^ -uint64_t(nd.b & 1));
					break;
				case Graph::XOR:
					for (uint32_t i = 0; i < nd.b; i++) v ^= pv[g.xarena[nd.a + i]][w];
					break;
				case Graph::LUT: {
					const auto &d = g.luts[nd.a];
					for (int b = 0; b < 64; b++) {
						int o = 0;
						for (int i = 0; i < d.n; i++) o |= int(pv[d.leaf[i]][w] >> b & 1) << i;
						if (Graph::ttBit(d.t, o)) v |= 1ULL << b;
					}
					break;
				}
				}
				pv[n][w] = v;
			}
		}
		for (int w = 0; w < W; w++) {
			uint64_t m = ~0ULL;
			for (Lit l : lits) { m &= (l >> 1 ? pv[l >> 1][w] : 0) ^ -uint64_t(l & 1); if (!m) break; }
			if (!m) continue;
			int b = __builtin_ctzll(m);
			as.assign(g.nvars, 0);
			for (uint32_t v = 0; v < g.nvars; v++)
				as[v] = (v < pool.size() ? pool[v][w] : g.nodes[g.varNode[v]].sim[(w + 1) % Graph::SIMW]) >> b & 1;
			return true;
		}
		return false;
	}

	bool laneModel(const std::vector<Lit> &lits, std::vector<uint8_t> &as)
	{
		for (int w = 0; w < Graph::SIMW; w++) {
			uint64_t m = ~0ULL;
			for (Lit l : lits) { m &= g.simWord(l, w); if (!m) break; }
			if (m) {
				int b = __builtin_ctzll(m);
				as.assign(g.nvars, 0);
				for (uint32_t v = 0; v < g.nvars; v++) as[v] = g.nodes[g.varNode[v]].sim[w] >> b & 1;
				return true;
			}
		}
		return false;
	}

	// Split the conjunction into components that share no input bit, decide each one
	// separately and remember the verdicts.
	std::map<std::vector<Lit>, std::pair<R, std::vector<std::pair<uint32_t, uint8_t>>>> compCache;
	std::map<std::vector<Lit>, double> gaveUp;
	R decide(const std::vector<Lit> &q, std::vector<uint8_t> &as, bool allowSweep, double timeLimit)
	{
		std::unordered_map<uint32_t, uint32_t> uf;	// node -> representative
		std::function<uint32_t(uint32_t)> find = [&](uint32_t x) {
			while (uf[x] != x) { uf[x] = uf[uf[x]]; x = uf[x]; }
			return x;
		};
		std::vector<uint32_t> cone;
		collect(q, cone);
		for (uint32_t n : cone) uf[n] = n;
		for (uint32_t n : cone) {
			const Graph::Node &nd = g.nodes[n];
			if (nd.k == Graph::AND) { uf[find(nd.a >> 1)] = find(n); uf[find(nd.b >> 1)] = find(n); }
			else if (nd.k == Graph::XOR) for (uint32_t i = 0; i < nd.b; i++) uf[find(g.xarena[nd.a + i])] = find(n);
			else if (nd.k == Graph::LUT) for (int i = 0; i < g.luts[nd.a].n; i++) uf[find(g.luts[nd.a].leaf[i])] = find(n);
		}
		std::map<uint32_t, std::vector<Lit>> comps;
		for (Lit l : q) comps[find(l >> 1)].push_back(l);
		std::map<uint32_t, std::vector<uint32_t>> vars;
		for (uint32_t n : cone) if (g.nodes[n].k == Graph::VAR) vars[find(n)].push_back(g.nodes[n].a);
		as.resize(g.nvars);
		for (uint32_t v = 0; v < g.nvars; v++) as[v] = defaultBit(v);
		R res = SAT;
		std::vector<std::pair<size_t, uint32_t>> order;
		for (auto &kv : comps) order.emplace_back(vars[kv.first].size(), kv.first);
		std::sort(order.begin(), order.end());
		for (auto &o : order) {
			auto &c = comps[o.second];
			auto it = compCache.find(c);
			// what was given up at a lower effort is tried again at a higher one
			const double effort = timeLimit * (allowSweep ? 1000 : 1);
			if (it != compCache.end() && it->second.first == UNKNOWN && gaveUp[c] < effort) { compCache.erase(it); it = compCache.end(); }
			if (it == compCache.end()) {
				std::vector<uint8_t> m;
				R r = UNKNOWN;
				if (laneModel(c, m)) r = SAT;
				else {
					std::vector<Lit> c1;
					if (!propagate(c, c1)) c1 = c;
					if (!swept.empty()) {
						c1 = rewrite(c1, {}, true);
						c1.erase(std::remove(c1.begin(), c1.end(), Lit(TRUE_)), c1.end());
						if (std::find(c1.begin(), c1.end(), Lit(FALSE_)) != c1.end()) c1.assign(1, FALSE_);
					}
					r = c1.size() == 1 && c1[0] == FALSE_ ? UNSAT : z3check(c1, m, allowSweep ? std::min(timeLimit, 10.0) : timeLimit);
					if (r == UNKNOWN && allowSweep) r = splitCheck(c1, m, 3);
					if (r == UNKNOWN && allowSweep) {
						std::vector<Lit> q2 = sweep(c1);
						bool f = false;
						for (Lit l : q2) if (l == FALSE_) f = true;
						r = f ? UNSAT : z3check(q2, m, timeLimit);
					}
				}
				std::vector<std::pair<uint32_t, uint8_t>> mv;
				if (r == SAT) { m.resize(g.nvars, 0); for (uint32_t v : vars[o.second]) mv.emplace_back(v, m[v]); }
				it = compCache.emplace(c, std::make_pair(r, mv)).first;
				if (r == UNKNOWN) gaveUp[c] = effort;
			}
			if (it->second.first == UNSAT) return UNSAT;
			if (it->second.first == UNKNOWN) { res = UNKNOWN; continue; }
			for (auto &p : it->second.second) as[p.first] = p.second;
		}
		return res;
	}

	// The way an arm of a branch was found feasible, with everything the branch does not depend on
	// chosen at random, is tried again on later queries.
	std::set<std::vector<Lit>> kept;
	void keepArm(const std::vector<Lit> &q, const std::vector<uint8_t> &as)
	{
		uint64_t lanes = 0;
		for (int w = 0; w < Graph::SIMW; w++) {
			uint64_t m = ~0ULL;
			for (Lit l : q) m &= g.simWord(l, w);
			lanes += __builtin_popcountll(m);
		}
		if (lanes > 8 || poolN >= 64 * POOLW || !kept.insert(q).second) return;
		std::vector<uint32_t> cone;
		collect(q, cone);
		std::vector<uint8_t> m(g.nvars);
		for (uint32_t v = 0; v < g.nvars; v++) m[v] = defaultBit(v);
		for (uint32_t n : cone) if (g.nodes[n].k == Graph::VAR) m[g.nodes[n].a] = as[g.nodes[n].a];
		remember(m);
	}
	// Replace a node by a constant throughout a query and rewrite it again.
	std::vector<Lit> cofactor(const std::vector<Lit> &q, uint32_t node, bool value)
	{
		// a conjunction that is true makes all of its members true
		std::unordered_map<uint32_t, bool> forced;
		std::vector<Lit> st{node * 2 | (value ? 0 : 1)};
		while (!st.empty()) {
			Lit l = st.back();
			st.pop_back();
			if (!forced.emplace(l >> 1, !(l & 1)).second) continue;
			const Graph::Node &nd = g.nodes[l >> 1];
			if (nd.k == Graph::AND && !(l & 1)) { st.push_back(nd.a); st.push_back(nd.b); }
		}
		std::unordered_map<uint32_t, Lit> fix;
		for (auto &kv : forced) fix[kv.first] = kv.second ? TRUE_ : FALSE_;
		return rewrite(q, fix);
	}
	// Input bits that a conjunct over few input bits forces are replaced by their value; the conjuncts
	// that say so are kept beside the rest.
	bool propagate(const std::vector<Lit> &q, std::vector<Lit> &out)
	{
		std::unordered_map<uint32_t, Lit> fix;	// variable node -> constant
		std::vector<Lit> cur = q;
		bool any = false;
		for (int round = 0; round < 8; round++) {
			bool more = false;
			for (Lit l : cur) {
				const Graph::Node &nd = g.nodes[l >> 1];
				if (nd.ns == 0 || nd.ns > 8) continue;
				Graph::TT t = g.tts[nd.tt];
				if (l & 1) for (auto &w : t) w = ~w;
				for (int i = 0; i < nd.ns; i++) {
					const Graph::TT p = Graph::projTT(i);
					bool can0 = false, can1 = false;
					for (int w = 0; w < 4; w++) { can0 |= (t[w] & ~p[w]) != 0; can1 |= (t[w] & p[w]) != 0; }
					if (can0 == can1) continue;
					const uint32_t n = g.varNode[g.sups[nd.tt].v[i]];
					if (fix.emplace(n, can1 ? TRUE_ : FALSE_).second) more = true;
				}
			}
			if (!more) break;
			any = true;
			cur = rewrite(cur, fix);
			for (Lit l : cur) if (l == FALSE_) { out.assign(1, FALSE_); return true; }
		}
		if (!any) return false;
		out.clear();
		for (Lit l : cur) if (l != TRUE_) out.push_back(l);
		for (auto &kv : fix) out.push_back(kv.first * 2 ^ (kv.second == TRUE_ ? 0 : 1));
		std::sort(out.begin(), out.end());
		return true;
	}
	// replay: also apply what earlier sweeps proved
	std::vector<Lit> rewrite(const std::vector<Lit> &q, const std::unordered_map<uint32_t, Lit> &fix, bool replay = false)
	{
		std::vector<uint32_t> cone;
		collect(q, cone);
		std::unordered_map<uint32_t, Lit> map;
		map[0] = FALSE_;
		for (uint32_t n : cone) {
			const Graph::Node nd = g.nodes[n];
			Lit r;
			auto fo = fix.find(n);
			if (fo != fix.end()) r = fo->second;
			else if (nd.k == Graph::VAR) r = n * 2;
			else if (nd.k == Graph::AND) r = g.mkAnd(map[nd.a >> 1] ^ (nd.a & 1), map[nd.b >> 1] ^ (nd.b & 1));
			else if (nd.k == Graph::LUT) {
				auto d = g.luts[nd.a];
				std::vector<Lit> ix;
				for (int i = 0; i < d.n; i++) ix.push_back(map[d.leaf[i]]);
				r = g.mkLut(ix, d.t);
			} else {
				r = FALSE_;
				for (uint32_t i = 0; i < nd.b; i++) r = g.mkXor(r, map[g.xarena[nd.a + i]]);
			}
			if (replay) for (auto it = swept.find(r >> 1); it != swept.end(); it = swept.find(r >> 1)) r = it->second ^ (r & 1);
			map[n] = r;
		}
		std::vector<Lit> out;
		for (Lit l : q) out.push_back(map[l >> 1] ^ (l & 1));
		return out;
	}
	// Case distinction over the conditions on which states were joined, the earliest first.
	R splitCheck(const std::vector<Lit> &q, std::vector<uint8_t> &as, int depth)
	{
		std::vector<uint32_t> cone;
		collect(q, cone);
		std::set<uint32_t> in(cone.begin(), cone.end());
		uint32_t best = 0;
		for (Lit l : mergeConds) if (l >> 1 && g.nodes[l >> 1].k != Graph::VAR && in.count(l >> 1) && (!best || l >> 1 < best)) {
			bool unit = false;
			for (Lit c : q) if (c >> 1 == l >> 1) unit = true;
			if (!unit) best = l >> 1;
		}
		if (!best || now() > deadline) return UNKNOWN;
		splits++;
		for (int v = 0; v < 2; v++) {
			std::vector<Lit> c = cofactor(q, best, v);
			bool f = false;
			for (Lit l : c) if (l == FALSE_) f = true;
			if (f) continue;
			c.push_back(best * 2 | (v ? 0 : 1));
			c.erase(std::remove(c.begin(), c.end(), Lit(TRUE_)), c.end());
			if (laneModel(c, as) || poolModel(c, as)) return SAT;
			R r = z3check(c, as, 10.0);
			if (r == UNKNOWN && depth) r = splitCheck(c, as, depth - 1);
			if (r != UNSAT) return r;
		}
		return UNSAT;
	}

	R check(std::vector<Lit> lits, std::vector<uint8_t> *model = nullptr, bool allowSweep = true, double limit = 0)
	{
		qTotal++;
		std::sort(lits.begin(), lits.end());
		lits.erase(std::unique(lits.begin(), lits.end()), lits.end());
		std::vector<Lit> q;
		for (size_t i = 0; i < lits.size(); i++) {
			if (lits[i] == TRUE_) continue;
			if (lits[i] == FALSE_ || (i && lits[i] == (lits[i - 1] ^ 1) && (lits[i] & 1))) { qRewrite++; return UNSAT; }
			q.push_back(lits[i]);
		}
		std::vector<uint8_t> as;
		if (laneModel(q, as)) {
			qWitness++;
			if (model) *model = as;
			if (limit > 0) keepArm(q, as);
			return SAT;
		}
		if (poolModel(q, as)) { qModelCache++; if (model) *model = as; return SAT; }
		R r = decide(q, as, allowSweep, limit > 0 ? limit : timeLimit);
		if (r == SAT) {
			as.resize(g.nvars, 0);
			if (!evalAll(q, as)) { fprintf(stderr, "gsym: model does not evaluate\n"); r = UNKNOWN; }
			else {
				remember(as);
				if (model) *model = as;
			}
		}
		if (r == SAT) qZ3Sat++;
		else if (r == UNSAT) qZ3Unsat++;
		else qUnknown++;
		return r;
	}

	// the part of the cone with the highest numbers: at most limit nodes, what lies below them is free
	bool cutCone(const std::vector<Lit> &q, size_t limit, std::vector<uint32_t> &cone, std::set<uint32_t> &inner)
	{
		std::set<uint32_t> work;
		for (Lit l : q) if (l >> 1) work.insert(l >> 1);
		while (!work.empty() && inner.size() < limit) {
			uint32_t n = *work.rbegin();
			work.erase(n);
			inner.insert(n);
			const Graph::Node &nd = g.nodes[n];
			if (nd.k == Graph::AND) { if (nd.a >> 1) work.insert(nd.a >> 1); if (nd.b >> 1) work.insert(nd.b >> 1); }
			else if (nd.k == Graph::XOR) for (uint32_t i = 0; i < nd.b; i++) work.insert(g.xarena[nd.a + i]);
			else if (nd.k == Graph::LUT) for (int i = 0; i < g.luts[nd.a].n; i++) work.insert(g.luts[nd.a].leaf[i]);
		}
		cone.assign(inner.begin(), inner.end());
		cone.insert(cone.end(), work.begin(), work.end());
		std::sort(cone.begin(), cone.end());
		return work.empty();
	}
	// is the literal false, by the part of the graph just above it?
	R falseLit(Lit d, double limit)
	{
		if (d == FALSE_) return UNSAT;
		if (d == TRUE_) return SAT;
		std::vector<uint8_t> as;
		for (size_t n : {60, 400, 3000}) {
			bool whole = false;
			R r = z3check({d}, as, limit / 2, n, &whole);
			if (r == UNSAT) return UNSAT;
			if (whole) { if (r == SAT) remember(as); return r; }
		}
		R r = z3check({d}, as, limit);
		if (r == SAT) remember(as);
		return r;
	}
	R z3check(const std::vector<Lit> &q, std::vector<uint8_t> &as, double limit, size_t cut = 0, bool *whole = nullptr)
	{
		double t0 = now();
		std::vector<uint32_t> cone;
		std::set<uint32_t> inner;
		if (cut) *whole = cutCone(q, cut, cone, inner);
		else collect(q, cone);
		maxCone = std::max<uint64_t>(maxCone, cone.size());
		R res = UNKNOWN;
		try {
			z3::context c;
			z3::solver s(c, "QF_FD");
			z3::params p(c);
			p.set("timeout", unsigned(limit * 1000));
			s.set(p);
			std::unordered_map<uint32_t, Z3_ast> e;
			std::vector<z3::expr> keep;
			auto lit = [&](Lit l) -> z3::expr {
				if (l == TRUE_) return c.bool_val(true);
				if (l == FALSE_) return c.bool_val(false);
				z3::expr x(c, e[l >> 1]);
				return (l & 1) ? !x : x;
			};
			std::vector<std::pair<uint32_t, z3::expr>> vars;
			for (uint32_t n : cone) {
				const Graph::Node &nd = g.nodes[n];
				z3::expr v = c.bool_const(((nd.k == Graph::VAR ? "v" : "n") + std::to_string(n)).c_str());
				keep.push_back(v);
				e[n] = v;
				if (nd.k == Graph::VAR) vars.emplace_back(nd.a, v);
				else if (cut && !inner.count(n)) ;
				else if (nd.k == Graph::AND) {
					s.add(v == (lit(nd.a) && lit(nd.b)));
				} else if (nd.k == Graph::LUT) {
					const auto &d = g.luts[nd.a];
					std::map<std::vector<uint64_t>, Z3_ast> memo;
					std::function<z3::expr(int, int)> mux = [&](int k, int a) -> z3::expr {
						if (k == 0) return c.bool_val(Graph::ttBit(d.t, a));
						z3::expr lo = mux(k - 1, a), hi = mux(k - 1, a | 1 << (k - 1));
						if (z3::eq(lo, hi)) return lo;
						return z3::ite(lit(d.leaf[k - 1] * 2), hi, lo);
					};
					s.add(v == mux(d.n, 0));
				} else {
					std::vector<z3::expr> xs;
					for (uint32_t i = 0; i < nd.b; i++) xs.push_back(lit(g.xarena[nd.a + i] * 2));
					while (xs.size() > 1) {
						std::vector<z3::expr> ys;
						for (size_t i = 0; i + 1 < xs.size(); i += 2) ys.push_back(z3::expr(c, Z3_mk_xor(c, xs[i], xs[i + 1])));
						if (xs.size() & 1) ys.push_back(xs.back());
						xs = ys;
					}
					s.add(v == xs[0]);
				}
			}
			for (Lit l : q) s.add(lit(l));
			if (!dumpDir.empty() && dumped < dumpMax) {
				std::string fn = dumpDir + "/q" + std::to_string(dumped++) + ".smt2";
				FILE *f = fopen(fn.c_str(), "w");
				if (f) { std::string t = s.to_smt2(); fwrite(t.data(), 1, t.size(), f); fclose(f); }
			}
			z3::check_result cr = s.check();
			if (cr == z3::sat) {
				z3::model m = s.get_model();
				as.resize(g.nvars);
				for (uint32_t v = 0; v < g.nvars; v++) as[v] = defaultBit(v);
				for (auto &kv : vars) {
					z3::expr v = m.eval(kv.second, true);
					as[kv.first] = v.is_true();
				}
				res = SAT;
			} else if (cr == z3::unsat) res = UNSAT;
		} catch (z3::exception &ex) {
			fprintf(stderr, "gsym: z3: %s\n", ex.msg());
		}
		z3Time += now() - t0;
		return res;
	}

	// SAT sweeping: rebuild the cone bottom-up, merging nodes whose simulation
	// signatures agree and which z3 proves equivalent.
	std::unordered_map<uint32_t, Lit> swept;	// proved so far
	std::vector<Lit> sweep(const std::vector<Lit> &q)
	{
		sweepRuns++;
		std::vector<uint32_t> cone;
		collect(q, cone);
		std::unordered_map<uint32_t, Lit> map;
		map[0] = FALSE_;
		struct Key { uint64_t s[Graph::SIMW]; bool operator<(const Key &o) const { return memcmp(s, o.s, sizeof s) < 0; } };
		std::map<Key, std::vector<uint32_t>> cls;
		double t0 = now();
		auto keyOf = [&](uint32_t n, bool &inv) {
			Key k;
			inv = g.nodes[n].sim[0] & 1;
			for (int w = 0; w < Graph::SIMW; w++) k.s[w] = inv ? ~g.nodes[n].sim[w] : g.nodes[n].sim[w];
			return k;
		};
		cls[Key{}].push_back(0);
		double tp = t0;
		for (uint32_t n : cone) {
			if (now() > deadline) return q;
			if (getenv("GS_DEBUG") && now() > tp + 5) { tp = now(); fprintf(stderr, "  at %.1f node %u of %u tried %lu merged %lu unk %lu nodes %zu\n", tp - t0, n, cone.back(), swTried, sweepMerges, swUnk, g.nodes.size()); }
			Graph::Node nd = g.nodes[n];
			Lit r;
			if (nd.k == Graph::VAR) r = n * 2;
			else if (nd.k == Graph::AND) {
				r = g.mkAnd(map[nd.a >> 1] ^ (nd.a & 1), map[nd.b >> 1] ^ (nd.b & 1));
			} else if (nd.k == Graph::LUT) {
				auto d = g.luts[nd.a];
				std::vector<Lit> ix;
				for (int i = 0; i < d.n; i++) ix.push_back(map[d.leaf[i]]);
				r = g.mkLut(ix, d.t);
			} else {
				r = FALSE_;
				for (uint32_t i = 0; i < nd.b; i++) r = g.mkXor(r, map[g.xarena[nd.a + i]]);
			}
			for (auto it = swept.find(r >> 1); it != swept.end(); it = swept.find(r >> 1)) r = it->second ^ (r & 1);
			if (r >> 1 && now() - t0 < timeLimit * 4) {
				bool inv;
				Key k = keyOf(r >> 1, inv);
				auto &v = cls[k];
				bool found = false;
				for (size_t i = 0; i < v.size() && i < 4; i++) {
					if (v[i] == (r >> 1)) { found = true; break; }
					bool inv2;
					keyOf(v[i], inv2);
					Lit cand = v[i] * 2 | ((inv != inv2) ^ (r & 1));
					Lit d = g.mkXor(r, cand);
					R e = falseLit(d, 2.0);
					swTried++; swUnk += e == UNKNOWN;
					if (e == UNSAT) { swept[r >> 1] = cand ^ (r & 1); r = cand; found = true; sweepMerges++; break; }
				}
				if (!found) v.push_back(r >> 1);
			}
			map[n] = r;
		}
		std::vector<Lit> out;
		for (Lit l : q) out.push_back(map[l >> 1] ^ (l & 1));
		if (getenv("GS_DEBUG")) fprintf(stderr, "sweep: cone %zu tried %lu merged %lu (total) unknown %lu, %.1f s\n", cone.size(), swTried, sweepMerges, swUnk, now() - t0);
		return out;
	}

	// Re-prove one rewriting step: out == op(in), with everything deeper than the given number
	// of levels replaced by free variables (a proof with free variables is a proof).
	R auditOne(const Graph::Event &ev, int depth, double limit)
	{
		double t0 = now();
		R res = UNKNOWN;
		try {
			z3::context c;
			z3::solver s(c, "QF_FD");
			z3::params p(c);
			p.set("timeout", unsigned(limit * 1000));
			s.set(p);
			// minimal distance from the roots
			std::map<uint32_t, int> dist;
			std::vector<uint32_t> q;
			auto root = [&](Lit l) { if (l >> 1 && !dist.count(l >> 1)) { dist[l >> 1] = 0; q.push_back(l >> 1); } };
			for (Lit l : ev.in) root(l);
			root(ev.out);
			// depth 0: only the result is expanded
			if (depth == 0) { dist.clear(); q.clear(); depth = 1; root(ev.out); }
			for (size_t i = 0; i < q.size(); i++) {
				const Graph::Node &nd = g.nodes[q[i]];
				if (dist[q[i]] >= depth) continue;
				auto push = [&](uint32_t n) { if (n && !dist.count(n)) { dist[n] = dist[q[i]] + 1; q.push_back(n); } };
				if (nd.k == Graph::AND) { push(nd.a >> 1); push(nd.b >> 1); }
				else if (nd.k == Graph::XOR) for (uint32_t k = 0; k < nd.b; k++) push(g.xarena[nd.a + k]);
				else if (nd.k == Graph::LUT) for (int k = 0; k < g.luts[nd.a].n; k++) push(g.luts[nd.a].leaf[k]);
				if (q.size() > 4000) return UNKNOWN;
			}
			std::map<uint32_t, z3::expr> e;
			auto lit = [&](Lit l) -> z3::expr {
				if (l < 2) return c.bool_val(l == TRUE_);
				auto it = e.find(l >> 1);
				if (it == e.end()) it = e.emplace(l >> 1, c.bool_const(("n" + std::to_string(l >> 1)).c_str())).first;
				return (l & 1) ? !it->second : it->second;
			};
			auto table = [&](const std::vector<Lit> &ix, const Graph::TT &t) {
				std::function<z3::expr(int, int)> mux = [&](int k, int a) -> z3::expr {
					if (k == 0) return c.bool_val(Graph::ttBit(t, a));
					z3::expr lo = mux(k - 1, a), hi = mux(k - 1, a | 1 << (k - 1));
					if (z3::eq(lo, hi)) return lo;
					return z3::ite(lit(ix[k - 1]), hi, lo);
				};
				return mux(ix.size(), 0);
			};
			for (auto &kv : dist) {
				const Graph::Node &nd = g.nodes[kv.first];
				if (kv.second >= depth && nd.k != Graph::VAR) continue;
				z3::expr v = lit(kv.first * 2);
				if (nd.k == Graph::AND) s.add(v == (lit(nd.a) && lit(nd.b)));
				else if (nd.k == Graph::XOR) {
					z3::expr x = c.bool_val(false);
					for (uint32_t k = 0; k < nd.b; k++) x = z3::expr(c, Z3_mk_xor(c, x, lit(g.xarena[nd.a + k] * 2)));
					s.add(v == x);
				} else if (nd.k == Graph::LUT) {
					const auto &d = g.luts[nd.a];
					std::vector<Lit> ix;
					for (int k = 0; k < d.n; k++) ix.push_back(d.leaf[k] * 2);
					s.add(v == table(ix, d.t));
				}
			}
			z3::expr want = c.bool_val(false);
			if (ev.op == Graph::AND) want = lit(ev.in[0]) && lit(ev.in[1]);
			else if (ev.op == Graph::XOR) want = z3::expr(c, Z3_mk_xor(c, lit(ev.in[0]), lit(ev.in[1])));
			else want = table(ev.in, ev.t);
			s.add(want != lit(ev.out));
			z3::check_result cr = s.check();
			res = cr == z3::unsat ? UNSAT : cr == z3::sat ? SAT : UNKNOWN;
		} catch (z3::exception &ex) {
			fprintf(stderr, "gsym: z3: %s\n", ex.msg());
		}
		z3Time += now() - t0;
		return res;
	}
	// The same for a long XOR: prefix parities over the union of the leaves, by induction:
	// one query per kind of leaf (in which of the three sums it occurs).
	R auditXor(const Graph::Event &ev)
	{
		double t0 = now();
		R res = UNKNOWN;
		auto leaves = [&](Lit l) {
			std::set<uint32_t> r;
			const Graph::Node &nd = g.nodes[l >> 1];
			if (nd.k == Graph::XOR) for (uint32_t k = 0; k < nd.b; k++) r.insert(g.xarena[nd.a + k]);
			else if (l >> 1) r.insert(l >> 1);
			return r;
		};
		try {
			z3::context c;
			z3::solver s(c, "QF_FD");
			std::set<uint32_t> a = leaves(ev.in[0]), b = leaves(ev.in[1]), o = leaves(ev.out), u = a;
			u.insert(b.begin(), b.end());
			u.insert(o.begin(), o.end());
			bool fin = (ev.in[0] ^ ev.in[1] ^ ev.out) & 1;
			auto X = [&](z3::expr p, z3::expr q) { return z3::expr(c, Z3_mk_xor(c, p, q)); };
			res = fin ? UNKNOWN : UNSAT;
			bool seen[8] = {};
			for (uint32_t n : u) {
				int cls = int(a.count(n)) | int(b.count(n)) << 1 | int(o.count(n)) << 2;
				if (seen[cls]) continue;
				seen[cls] = true;
				z3::expr v = c.bool_const("v"), z = c.bool_val(false);
				z3::expr pa = c.bool_const("a"), pb = c.bool_const("b"), po = c.bool_const("o");
				s.push();
				s.add(!X(X(pa, pb), po));
				s.add(X(X(X(pa, cls & 1 ? v : z), X(pb, cls & 2 ? v : z)), X(po, cls & 4 ? v : z)));
				z3::check_result cr = s.check();
				s.pop();
				if (cr != z3::unsat) { res = UNKNOWN; break; }
			}
		} catch (z3::exception &ex) {
			fprintf(stderr, "gsym: z3: %s\n", ex.msg());
			res = UNKNOWN;
		}
		z3Time += now() - t0;
		return res;
	}
	R auditLut(const Graph::Event &ev)
	{
		double t0 = now();
		R res = UNKNOWN;
		try {
			z3::context c;
			z3::solver s(c, "QF_FD");
			auto lit = [&](Lit l) -> z3::expr {
				if (l < 2) return c.bool_val(l == TRUE_);
				z3::expr v = c.bool_const(("n" + std::to_string(l >> 1)).c_str());
				return (l & 1) ? !v : v;
			};
			std::function<z3::expr(const std::vector<Lit> &, const Graph::TT &, int, int)> mux = [&](const std::vector<Lit> &ix, const Graph::TT &t, int k, int a) -> z3::expr {
				if (k == 0) return c.bool_val(Graph::ttBit(t, a));
				z3::expr lo = mux(ix, t, k - 1, a), hi = mux(ix, t, k - 1, a | 1 << (k - 1));
				return z3::eq(lo, hi) ? lo : z3::ite(lit(ix[k - 1]), hi, lo);
			};
			std::vector<Lit> lv;
			for (uint32_t n : ev.leaf) lv.push_back(n * 2);
			z3::expr sum = c.bool_val(false);
			for (auto &t : ev.parts) sum = z3::expr(c, Z3_mk_xor(c, sum, mux(lv, t, lv.size(), 0)));
			s.add(sum != mux(ev.in, ev.t, ev.in.size(), 0));
			z3::params p(c);
			p.set("timeout", 3000u);
			s.set(p);
			z3::check_result cr = s.check();
			res = cr == z3::unsat ? UNSAT : cr == z3::sat ? SAT : UNKNOWN;
		} catch (z3::exception &ex) {
			fprintf(stderr, "gsym: z3: %s\n", ex.msg());
		}
		z3Time += now() - t0;
		return res;
	}
	double auditTime = 10;
	uint64_t audited = 0, auditOpen = 0, auditFailed = 0;
	void audit()
	{
		auto ev = g.events;
		g.maxEvents = 0;
		double stop = std::min(deadline, now() + auditTime);
		for (auto &x : ev) {
			R r = UNKNOWN;
			if (getenv("GS_DEBUG")) fprintf(stderr, "audit op %d in %zu t=%.2f\n", int(x.op), x.in.size(), z3Time);
			if (x.op == Graph::XOR && auditXor(x) == UNSAT) { audited++; continue; }
			if (x.op == Graph::LUT && !x.leaf.empty()) {
				r = auditLut(x);
				if (r == UNSAT) audited++;
				else if (r == SAT) auditFailed++;
				else auditOpen++;
				continue;
			}
			for (int d : {0, 1, 2, 4, 12, 1000000}) {
				if (now() > stop) return;
				r = auditOne(x, d, 1);
				if (r == UNSAT || (r == UNKNOWN && d > 4)) break;
			}
			if (r == UNSAT) audited++;
			else if (r == SAT) auditFailed++;
			else auditOpen++;
		}
	}
};
