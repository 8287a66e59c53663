// Bit-level expression graph ("XOR-AND graph") with canonical forms.
//
// Every symbolic bit is a literal: node id * 2 + complement.
//   VAR            a primary input bit
//   AND(a, b)      operands are literals; at most "both complemented" or "none":
//                  x & ~y is rewritten to x ^ (x & y)
//   LUT(leaves,t)  a table of up to 8 leaf nodes (a load from a constant table); tables over
//                  the same leaves are kept as a GF(2) basis, so that linear relations
//                  between them are found by rewriting
//   XOR(set)       a set of >= 2 non-XOR nodes, flattened and sorted, so that any two
//                  GF(2)-linear combinations of the same atoms are the same node
// Nodes that depend on at most 8 input bits are additionally unified by their truth
// table. All rewriting is equivalence preserving; whatever it does not decide goes to
// the SMT/SAT back end (solver.h).
#pragma once
#include <algorithm>
#include <array>
#include <cstdint>
#include <cstring>
#include <map>
#include <new>
#include <string>
#include <unordered_map>
#include <vector>

typedef uint32_t Lit;
static const Lit FALSE_ = 0, TRUE_ = 1;
inline Lit neg(Lit l) { return l ^ 1; }
inline uint32_t nodeOf(Lit l) { return l >> 1; }

inline uint64_t mix64(uint64_t x)
{
	x += 0x9e3779b97f4a7c15ULL;
	x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
	x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
	return x ^ (x >> 31);
}

struct Graph {
	enum Kind : uint8_t { CONST, VAR, AND, XOR, LUT };
	static const int SIMW = 4;	// 256 simulation lanes
	static const uint32_t NONE = 0xffffffffu;
	struct Node {
		Kind k;
		uint8_t ns;		// support size, 255 = more than 8
		uint32_t a, b;
		uint32_t tt;		// index into tts/sups when ns <= 8
		uint64_t sim[SIMW];
	};
	typedef std::array<uint64_t, 4> TT;
	struct Sup { uint32_t v[8]; };

	std::vector<Node> nodes;
	std::vector<uint32_t> xarena;
	std::vector<TT> tts;
	std::vector<Sup> sups;
	uint32_t nvars = 0;
	std::vector<uint32_t> varNode;
	uint64_t seed = 1;
	size_t maxArena = 2000000000u, maxNodes = 100000000u;	// offsets are 32-bit; memory
	uint64_t nAnd = 0, nXor = 0;
	bool plain = false;	// no canonical forms: structural hashing only, everything left to the back end

	std::unordered_map<uint64_t, Lit> xorMemo, andMemo;

	// A uniform sample of the rewriting steps, to be re-proved by the SMT solver afterwards.
	// A table step is recorded as out = XOR of tables over common leaves (the sums themselves are
	// XOR steps).
	struct Event { Kind op; std::vector<Lit> in; TT t; Lit out; std::vector<uint32_t> leaf = {}; std::vector<TT> parts = {}; };
	std::vector<uint32_t> lastLeaf;
	std::vector<TT> lastParts;
	std::vector<Event> events;
	size_t maxEvents = 0;
	uint64_t nEvents = 0;
	void log(Kind op, std::vector<Lit> in, const TT &t, Lit out)
	{
		if (!maxEvents) return;
		nEvents++;
		Event ev{op, in, t, out};
		if (op == LUT) { ev.leaf = lastLeaf; ev.parts = lastParts; }
		if (events.size() < maxEvents) { events.push_back(ev); return; }
		uint64_t r = mix64(nEvents * 0x9e37 + seed) % nEvents;
		if (r < maxEvents) events[r] = ev;
	}
	std::unordered_multimap<uint64_t, uint32_t> xorTab;
	std::unordered_multimap<uint64_t, uint32_t> ttTab;

	Graph()
	{
		Node n{};
		n.k = CONST; n.ns = 0; n.tt = 0;
		nodes.push_back(n);
		tts.push_back(TT{});
		sups.push_back(Sup{});
		xorMemo.reserve(1 << 20);
		andMemo.reserve(1 << 20);
	}

	static const uint64_t *proj()
	{
		static const uint64_t p[6] = {
			0xaaaaaaaaaaaaaaaaULL, 0xccccccccccccccccULL, 0xf0f0f0f0f0f0f0f0ULL,
			0xff00ff00ff00ff00ULL, 0xffff0000ffff0000ULL, 0xffffffff00000000ULL
		};
		return p;
	}
	static TT projTT(int i)
	{
		TT t;
		for (int w = 0; w < 4; w++) {
			if (i < 6) t[w] = proj()[i];
			else if (i == 6) t[w] = (w & 1) ? ~0ULL : 0;
			else t[w] = (w & 2) ? ~0ULL : 0;
		}
		return t;
	}

	Lit newVar()
	{
		Node n{};
		n.k = VAR; n.a = nvars; n.ns = 1;
		uint64_t h = mix64(seed * 0x1000003 + nvars);
		for (int w = 0; w < SIMW; w++) {
			h = mix64(h + w);
			n.sim[w] = h;
		}
		// lane 0: all zero, lane 1: all one
		n.sim[0] = (n.sim[0] & ~3ULL) | 2ULL;
		// the last 64 lanes: some aligned words of 32 bits all zero, some all one
		for (int b = 0; b < 64; b++) {
			uint64_t r = mix64(mix64(seed + 77 * (nvars / 32)) + b) & 7;
			if (r == 0) n.sim[SIMW - 1] &= ~(1ULL << b);
			if (r == 1) n.sim[SIMW - 1] |= 1ULL << b;
		}
		n.tt = tts.size();
		tts.push_back(projTT(0));
		Sup s{}; s.v[0] = nvars;
		sups.push_back(s);
		nodes.push_back(n);
		varNode.push_back(nodes.size() - 1);
		nvars++;
		uint32_t id = nodes.size() - 1;
		ttTab.emplace(ttHash(n.ns, sups[n.tt], tts[n.tt]), id);
		return id * 2;
	}

	static uint64_t ttHash(int ns, const Sup &s, const TT &t)
	{
		uint64_t h = ns;
		for (int i = 0; i < ns; i++) h = mix64(h ^ s.v[i]);
		for (int i = 0; i < 4; i++) h = mix64(h ^ t[i]);
		return h;
	}

	// truth table of node n expressed over support s (superset of n's support)
	TT expand(uint32_t n, const Sup &s, int ns)
	{
		const Node &nd = nodes[n];
		const Sup &os = sups[nd.tt];
		const TT &ot = tts[nd.tt];
		if (nd.ns == ns) return ot;
		int pos[8];
		for (int i = 0, j = 0; i < nd.ns; i++) {
			while (s.v[j] != os.v[i]) j++;
			pos[i] = j++;
		}
		(void)ns;
		TT r{};
		for (int m = 0; m < 256; m++) {
			int o = 0;
			for (int i = 0; i < nd.ns; i++) if (m >> pos[i] & 1) o |= 1 << i;
			if (ot[o >> 6] >> (o & 63) & 1) r[m >> 6] |= 1ULL << (m & 63);
		}
		return r;
	}
	bool unionSup(const Sup &a, int na, const Sup &b, int nb, Sup &r, int &nr)
	{
		int i = 0, j = 0;
		nr = 0;
		while (i < na || j < nb) {
			uint32_t v;
			if (j >= nb || (i < na && a.v[i] < b.v[j])) v = a.v[i++];
			else if (i >= na || b.v[j] < a.v[i]) v = b.v[j++];
			else { v = a.v[i]; i++; j++; }
			if (nr == 8) return false;
			r.v[nr++] = v;
		}
		return true;
	}
	static bool depends(const TT &t, int i)
	{
		if (i < 6) {
			for (int w = 0; w < 4; w++) {
				uint64_t hi = t[w] & proj()[i], lo = t[w] & ~proj()[i];
				if ((hi >> (1 << i)) != lo) return true;
			}
			return false;
		}
		if (i == 6) return t[0] != t[1] || t[2] != t[3];
		return t[0] != t[2] || t[1] != t[3];
	}
	// drop variable i (function does not depend on it)
	static TT dropVar(const TT &t, int i)
	{
		TT r{};
		for (int m = 0; m < 256; m++) {
			int lowmask = (1 << i) - 1;
			int o = ((m & ~lowmask) << 1 | (m & lowmask)) & 255;
			if (t[o >> 6] >> (o & 63) & 1) r[m >> 6] |= 1ULL << (m & 63);
		}
		return r;
	}

	// Canonicalise by truth table. Returns true and sets out when an existing literal
	// computes the same function; otherwise fills ns/tt data for the new node.
	bool canonTT(Sup s, int ns, TT t, Lit &out, int &rns, Sup &rs, TT &rt, bool &compl_)
	{
		compl_ = t[0] & 1;
		if (compl_) for (auto &w : t) w = ~w;
		for (int i = ns - 1; i >= 0; i--) {
			if (!depends(t, i)) {
				t = dropVar(t, i);
				for (int j = i; j + 1 < ns; j++) s.v[j] = s.v[j + 1];
				ns--;
			}
		}
		if (ns == 0) { out = compl_ ? TRUE_ : FALSE_; return true; }
		for (int j = ns; j < 8; j++) s.v[j] = 0;
		uint64_t h = ttHash(ns, s, t);
		auto r = ttTab.equal_range(h);
		for (auto it = r.first; it != r.second; ++it) {
			const Node &n = nodes[it->second];
			if (n.ns != ns) continue;
			TT o = tts[n.tt];
			bool ocpl = o[0] & 1;
			if (ocpl) for (auto &w : o) w = ~w;
			if (o != t || memcmp(sups[n.tt].v, s.v, ns * 4)) continue;
			out = it->second * 2 | (compl_ != ocpl ? 1 : 0);
			return true;
		}
		rns = ns; rs = s; rt = t;
		return false;
	}

	const uint32_t *xset(uint32_t n, uint32_t &len, uint32_t &self)
	{
		if (nodes[n].k == XOR) { len = nodes[n].b; return &xarena[nodes[n].a]; }
		self = n; len = 1; return &self;
	}

	Lit mkXorSet(const std::vector<uint32_t> &set)
	{
		if (set.empty()) return FALSE_;
		if (set.size() == 1) return set[0] * 2;
		uint64_t h = set.size();
		for (uint32_t x : set) h = mix64(h ^ x);
		auto r = xorTab.equal_range(h);
		for (auto it = r.first; it != r.second; ++it) {
			const Node &n = nodes[it->second];
			if (n.b == set.size() && !memcmp(&xarena[n.a], set.data(), set.size() * 4))
				return it->second * 2;
		}
		Node n{};
		n.k = XOR; n.ns = 255; n.tt = NONE;
		// truth table
		Sup s{}; int ns = 0; bool small = !plain;
		for (uint32_t x : set) {
			if (plain) break;
			const Node &c = nodes[x];
			if (c.ns > 8) { small = false; break; }
			Sup u{}; int nu;
			if (!unionSup(s, ns, sups[c.tt], c.ns, u, nu)) { small = false; break; }
			s = u; ns = nu;
		}
		bool cpl = false;
		Sup rs; TT rt; int rns = 0;
		if (small) {
			TT t{};
			for (uint32_t x : set) {
				TT e = expand(x, s, ns);
				for (int w = 0; w < 4; w++) t[w] ^= e[w];
			}
			Lit out;
			if (canonTT(s, ns, t, out, rns, rs, rt, cpl)) return out;
		}
		for (uint32_t x : set)
			for (int w = 0; w < SIMW; w++) n.sim[w] ^= nodes[x].sim[w];
		if (xarena.size() > maxArena || nodes.size() > maxNodes) throw std::bad_alloc();
		n.a = xarena.size(); n.b = set.size();
		xarena.insert(xarena.end(), set.begin(), set.end());
		uint32_t id = nodes.size();
		if (small) {
			ttTab.emplace(ttHash(rns, rs, rt), id);
			if (cpl) for (auto &w : rt) w = ~w;
			n.ns = rns; n.tt = tts.size();
			tts.push_back(rt); sups.push_back(rs);
		}
		nodes.push_back(n);
		xorTab.emplace(h, id);
		nXor++;
		return id * 2;
	}

	Lit mkXor(Lit a, Lit b)
	{
		Lit c = (a ^ b) & 1;
		uint32_t x = a >> 1, y = b >> 1;
		if (x == y) return c;
		if (x == 0) return y * 2 | c;
		if (y == 0) return x * 2 | c;
		if (x > y) std::swap(x, y);
		uint64_t key = uint64_t(x) << 32 | y;
		auto it = xorMemo.find(key);
		if (it != xorMemo.end()) return it->second ^ c;
		if (plain) {
			Lit res = mkXorSet({x, y});
			xorMemo.emplace(key, res);
			return res ^ c;
		}
		uint32_t s1, s2, l1, l2;
		const uint32_t *p1 = xset(x, l1, s1), *p2 = xset(y, l2, s2);
		std::vector<uint32_t> r;
		r.reserve(l1 + l2);
		std::set_symmetric_difference(p1, p1 + l1, p2, p2 + l2, std::back_inserter(r));
		Lit res = mkXorSet(r);
		xorMemo.emplace(key, res);
		if (maxEvents) log(XOR, {x * 2, y * 2}, TT{}, res);
		return res ^ c;
	}

	Lit mkAnd(Lit a, Lit b)
	{
		if (a == b) return a;
		if (a == neg(b)) return FALSE_;
		if (a == FALSE_ || b == FALSE_) return FALSE_;
		if (a == TRUE_) return b;
		if (b == TRUE_) return a;
		if (a > b) std::swap(a, b);
		if (((a ^ b) & 1) && !plain) {
			// exactly one complemented: x & ~y = x ^ xy
			Lit x = (a & 1) ? b : a, y = (a & 1) ? neg(a) : neg(b);
			Lit res = mkXor(x, mkAnd(x, y));
			if (maxEvents) log(AND, {a, b}, TT{}, res);
			return res;
		}
		uint64_t key = uint64_t(a) << 32 | b;
		auto it = andMemo.find(key);
		if (it != andMemo.end()) return it->second;
		Lit res = andNew(a, b);
		andMemo.emplace(key, res);
		if (maxEvents) log(AND, {a, b}, TT{}, res);
		return res;
	}

	Lit andNew(Lit a, Lit b)
	{
		uint32_t x = a >> 1, y = b >> 1;
		if (!(a & 1) && !plain) {
			// both positive: absorption
			for (int sw = 0; sw < 2; sw++) {
				const Node &n = nodes[x];
				if (n.k == AND) {
					if (n.a == y * 2 || n.b == y * 2) return x * 2;
					if (n.a == (y * 2 | 1) || n.b == (y * 2 | 1)) return FALSE_;
				}
				if (n.k == XOR && nodes[y].k != XOR) {
					const uint32_t *p = &xarena[n.a];
					if (std::binary_search(p, p + n.b, y)) {
						// y & (y ^ rest) = y ^ (y & rest)
						std::vector<uint32_t> r;
						for (uint32_t i = 0; i < n.b; i++) if (p[i] != y) r.push_back(p[i]);
						return mkXor(y * 2, mkAnd(y * 2, mkXorSet(r)));
					}
				}
				std::swap(x, y);
			}
		}
		Node n{};
		n.k = AND; n.a = a; n.b = b; n.ns = 255; n.tt = NONE;
		x = a >> 1; y = b >> 1;
		bool small = !plain && nodes[x].ns <= 8 && nodes[y].ns <= 8;
		Sup s{}; int ns = 0;
		if (small) small = unionSup(sups[nodes[x].tt], nodes[x].ns, sups[nodes[y].tt], nodes[y].ns, s, ns);
		bool cpl = false;
		Sup rs; TT rt; int rns = 0;
		if (small) {
			TT t1 = expand(x, s, ns), t2 = expand(y, s, ns), t;
			for (int w = 0; w < 4; w++) t[w] = (a & 1) ? ~t1[w] & ~t2[w] : t1[w] & t2[w];
			Lit out;
			if (canonTT(s, ns, t, out, rns, rs, rt, cpl)) return out;
		}
		for (int w = 0; w < SIMW; w++) n.sim[w] = simWord(a, w) & simWord(b, w);
		uint32_t id = nodes.size();
		if (small) {
			ttTab.emplace(ttHash(rns, rs, rt), id);
			if (cpl) for (auto &w : rt) w = ~w;
			n.ns = rns; n.tt = tts.size();
			tts.push_back(rt); sups.push_back(rs);
		}
		nodes.push_back(n);
		nAnd++;
		return id * 2;
	}

	// ---- table nodes
	struct BasisVec { TT t; int pivot; Lit lit; };
	struct LutDef { uint32_t leaf[8]; int n; TT t; };
	std::vector<LutDef> luts;			// node.a of a LUT node
	std::map<std::vector<uint32_t>, std::vector<BasisVec>> bases;
	uint64_t nLut = 0;
	static int firstBit(const TT &t)
	{
		for (int w = 0; w < 4; w++) if (t[w]) return w * 64 + __builtin_ctzll(t[w]);
		return -1;
	}
	static bool ttBit(const TT &t, int i) { return t[i >> 6] >> (i & 63) & 1; }
	// the function of idx (bit i of the table index is idx[i]) given by t (256 entries; entries
	// above 2^n repeat)
	Lit mkLut(const std::vector<Lit> &idx, const TT &t)
	{
		lastLeaf.clear(); lastParts.clear();
		Lit r = mkLut_(idx, t);
		if (maxEvents) log(LUT, idx, t, r);
		return r;
	}
	Lit mkLut_(std::vector<Lit> idx, TT t)
	{
		// constants and complements
		for (size_t i = 0; i < idx.size();) {
			bool drop = false;
			if (idx[i] < 2 || (idx[i] & 1)) {
				TT r{};
				for (int m = 0; m < 256; m++) {
					int o = idx[i] == FALSE_ ? m & ~(1 << i) : idx[i] == TRUE_ ? m | (1 << i) : m ^ (1 << i);
					if (ttBit(t, o)) r[m >> 6] |= 1ULL << (m & 63);
				}
				t = r;
				idx[i] &= idx[i] < 2 ? ~0u : ~1u;
			}
			for (size_t j = 0; j < i && !drop; j++) if (idx[j] == idx[i]) {
				TT r{};
				for (int m = 0; m < 256; m++) {
					int o = (m >> j & 1) ? m | (1 << i) : m & ~(1 << i);
					if (ttBit(t, o)) r[m >> 6] |= 1ULL << (m & 63);
				}
				t = r;
			}
			if (!depends(t, i)) drop = true;
			if (drop) { t = dropVar(t, i); idx.erase(idx.begin() + i); }
			else i++;
		}
		for (size_t i = 0; i < idx.size();) {
			if (!depends(t, i)) { t = dropVar(t, i); idx.erase(idx.begin() + i); }
			else i++;
		}
		if (idx.empty()) return (t[0] & 1) ? TRUE_ : FALSE_;
		// sort the leaves
		std::vector<int> perm(idx.size());
		for (size_t i = 0; i < perm.size(); i++) perm[i] = i;
		std::sort(perm.begin(), perm.end(), [&](int a, int b) { return idx[a] < idx[b]; });
		std::vector<uint32_t> leaf;
		for (int p : perm) leaf.push_back(idx[p] >> 1);
		TT st{};
		for (int m = 0; m < 256; m++) {
			int o = 0;
			for (size_t i = 0; i < perm.size(); i++) if (m >> i & 1) o |= 1 << perm[i];
			if (ttBit(t, o)) st[m >> 6] |= 1ULL << (m & 63);
		}
		t = st;
		// few primary inputs: ordinary nodes, unified by their truth table
		{
			Sup s{}; int ns = 0; bool small = true;
			for (uint32_t l : leaf) {
				Sup u{}; int nu;
				if (nodes[l].ns > 8 || !unionSup(s, ns, sups[nodes[l].tt], nodes[l].ns, u, nu)) { small = false; break; }
				s = u; ns = nu;
			}
			if (plain || small || leaf.size() == 1) return muxTT(leaf, t, leaf.size(), 0);
		}
		auto &bs = bases[leaf];
		if (bs.empty()) {
			TT one; one.fill(~0ULL);
			addBasis(bs, one, TRUE_);
			for (size_t i = 0; i < leaf.size(); i++) addBasis(bs, projTT(i), leaf[i] * 2);
		}
		Lit res = FALSE_;
		if (maxEvents) lastLeaf = leaf;
		for (auto &v : bs) if (ttBit(t, v.pivot)) {
			if (maxEvents) lastParts.push_back(v.t);
			for (int w = 0; w < 4; w++) t[w] ^= v.t[w];
			res = mkXor(res, v.lit);
		}
		if (firstBit(t) < 0) return res;
		Node n{};
		n.k = LUT; n.ns = 255; n.tt = NONE;
		if (maxEvents) lastParts.push_back(t);
		LutDef d{};
		d.n = leaf.size();
		for (int i = 0; i < d.n; i++) d.leaf[i] = leaf[i];
		d.t = t;
		n.a = luts.size();
		luts.push_back(d);
		for (int w = 0; w < SIMW; w++)
			for (int b = 0; b < 64; b++) {
				int o = 0;
				for (int i = 0; i < d.n; i++) if (nodes[leaf[i]].sim[w] >> b & 1) o |= 1 << i;
				if (ttBit(t, o)) n.sim[w] |= 1ULL << b;
			}
		uint32_t id = nodes.size();
		nodes.push_back(n);
		nLut++;
		addBasis(bs, t, id * 2);
		return mkXor(res, id * 2);
	}
	static void addBasisRaw(std::vector<BasisVec> &bs, const TT &t, int p, Lit l) { bs.push_back({t, p, l}); }
	void addBasis(std::vector<BasisVec> &bs, TT t, Lit l)
	{
		for (auto &v : bs) if (ttBit(t, v.pivot)) {
			for (int w = 0; w < 4; w++) t[w] ^= v.t[w];
			l = mkXor(l, v.lit);
		}
		int p = firstBit(t);
		if (p < 0) return;
		bs.push_back({t, p, l});
	}
	Lit muxTT(const std::vector<uint32_t> &leaf, const TT &t, size_t k, int a)
	{
		if (k == 0) return ttBit(t, a) ? TRUE_ : FALSE_;
		Lit lo = muxTT(leaf, t, k - 1, a), hi = muxTT(leaf, t, k - 1, a | 1 << (k - 1));
		return mkIte(leaf[k - 1] * 2, hi, lo);
	}

	Lit mkOr(Lit a, Lit b) { return neg(mkAnd(neg(a), neg(b))); }
	Lit mkIte(Lit c, Lit a, Lit b)
	{
		if (c == TRUE_) return a;
		if (c == FALSE_) return b;
		if (a == b) return a;
		return mkXor(b, mkAnd(c, mkXor(a, b)));
	}
	uint64_t simWord(Lit l, int w) const
	{
		uint64_t v = nodes[l >> 1].sim[w];
		return (l & 1) ? ~v : v;
	}
};

// Hash-consed vectors of literals.
struct BVs {
	struct Ent { uint32_t off, n; };
	std::vector<Ent> ents;
	std::vector<Lit> arena;
	std::unordered_multimap<uint64_t, uint32_t> tab;
	BVs() { ents.push_back({0, 0}); }
	uint32_t mk(const Lit *l, uint32_t n)
	{
		uint64_t h = n;
		for (uint32_t i = 0; i < n; i++) h = mix64(h ^ l[i]);
		auto r = tab.equal_range(h);
		for (auto it = r.first; it != r.second; ++it) {
			const Ent &e = ents[it->second];
			if (e.n == n && !memcmp(&arena[e.off], l, n * sizeof(Lit))) return it->second;
		}
		if (arena.size() > 2000000000u) throw std::bad_alloc();
		ents.push_back({uint32_t(arena.size()), n});
		arena.insert(arena.end(), l, l + n);
		tab.emplace(h, ents.size() - 1);
		return ents.size() - 1;
	}
	uint32_t width(uint32_t id) const { return ents[id].n; }
	const Lit *get(uint32_t id) const { return &arena[ents[id].off]; }
};
