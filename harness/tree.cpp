// Histories as trees: every operation may continue any object obtained so far, so that one object is
// used several times, before and after its successors. In the end every object is asked for everything
// it stands for. The 64-bit cipher works over any round function at all (see anykey.h).
#include "anykey.h"
#include <goost/gost89/CFBSink.h>
#include <goost/gost89/CFBSource.h>
#include <goost/kuznyechik/Imit.h>
#include <goost/kuznyechik/Iterator.h>
#include <goost/kuznyechik/StCTREncrypted.h>
#include <goost/kuznyechik/StMemory.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/BlkRaw.h>
#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>
using namespace goost;
using namespace std;
namespace mg = goost::magma;
namespace g8 = goost::gost89;
namespace kz = goost::kuznyechik;
#ifdef THOROUGH
static const size_t STEPS = 4;
#else
static const size_t STEPS = 3;
#endif
static Bytes part(const Bytes &b, size_t from, size_t to) { return Bytes(b.begin() + from, b.begin() + to); }
static const char *PARENT[] = {"", "on1", "on2", "on3", "on4"}, *SIZE[] = {"size0", "size1", "size2", "size3", "size4"}, *CHUNK[] = {"m0", "m1", "m2", "m3", "m4"};

template<class W> static void sinkTree(shared_ptr<const Sink> first, W want, const vector<size_t> &sizes)
{
	vector<shared_ptr<const Sink>> s{first};
	vector<Bytes> m(1);
	for (size_t i = 0; i < STEPS; i++) {
		size_t p = i ? gs_choice_(i + 1, PARENT[i]) : 0, n = sizes[gs_choice_(sizes.size(), SIZE[i])];
		auto b = gs_bytes(n, CHUNK[i]);
		s.push_back(s[p]->write(toS(b)));
		Bytes all = m[p];
		all.insert(all.end(), b.begin(), b.end());
		m.push_back(all);
	}
	bool back = gs_choice_(2, "order");
	for (size_t i = 0; i < s.size(); i++) {
		size_t j = back ? s.size() - 1 - i : i;
		assertBytes(collected(s[j]->finalize()), want(m[j]), "each sink passes on what was written to it and its ancestors");
	}
	assertBytes(collected(s[1]->finalize()), want(m[1]), "finalize() again");
	gs_reach("end");
}
template<class S> static void sourceTree(shared_ptr<const Source> first, const Bytes &want, const vector<size_t> &sizes, size_t chunk, S)
{
	vector<shared_ptr<const Source>> s{first};
	vector<size_t> at(1, 0);
	for (size_t i = 0; i < STEPS; i++) {
		size_t p = i ? gs_choice_(i + 1, PARENT[i]) : 0, n = sizes[gs_choice_(sizes.size(), SIZE[i])];
		auto r = s[p]->read(n);
		size_t e = min(want.size(), at[p] + n);
		assertBytes(fromS(r.first), part(want, at[p], e), "a read yields what follows, whatever else was read from the same source");
		s.push_back(r.second);
		at.push_back(e);
	}
	for (size_t i = 0; i < s.size(); i++) assertBytes(drain(s[i], chunk), part(want, at[i], want.size()), "each source still has all that follows");
	gs_reach("end");
}
#ifdef THOROUGH
static const vector<size_t> BYTES{1, 3, 5, 8, 11}, BLOCKS{0, 8, 16};
#else
static const vector<size_t> BYTES{0, 1, 2, 5, 8, 11}, BLOCKS{0, 8, 16};
#endif
static vector<uint64_t> symIv(size_t n)
{
	vector<uint64_t> r(n);
	gs_symbolic(r.data(), n * 8, "iv");
	return r;
}
ENTRY c19_tree_sink_gost89()
{
	auto iv = symIv(1);
	sinkTree(make_shared<g8::CFBSink>(make_shared<CollectSink>(), make_shared<AnyKey>(), iv[0]), [&](const Bytes &m) { return ref::cfb(RefAnyKey(), iv, m, true); }, BYTES);
}
ENTRY c19_tree_sink_magma()
{
	auto iv = symIv(2);
	sinkTree(make_shared<mg::CFBSink>(make_shared<CollectSink>(), make_shared<AnyKey>(), iv[0], iv[1]), [&](const Bytes &m) { return ref::cfb(RefAnyKey(), iv, m, true); }, BYTES);
}
ENTRY c19_tree_sink_ecb()
{
	sinkTree(make_shared<mg::ECBSink>(make_shared<CollectSink>(), make_shared<AnyKey>()), [&](const Bytes &m) { return ref::ecb(RefAnyKey(), m, true); }, BLOCKS);
}
ENTRY c19_tree_source_gost89()
{
	auto iv = symIv(1);
	auto c = gs_bytes(21, "ct");
	sourceTree(make_shared<g8::CFBSource>(make_shared<VecSource>(c), make_shared<AnyKey>(), iv[0]), ref::cfb(RefAnyKey(), iv, c, false), BYTES, 30, 0);
}
ENTRY c19_tree_source_magma()
{
	auto iv = symIv(2);
	auto c = gs_bytes(21, "ct");
	sourceTree(make_shared<mg::CFBSource>(make_shared<VecSource>(c), make_shared<AnyKey>(), iv[0], iv[1]), ref::cfb(RefAnyKey(), iv, c, false), BYTES, 30, 0);
}
// iterators of both kinds of streams: next() on any of them, values asked for at once or only in the end
template<class I> static void iterTree(I first, const vector<ref::B128> &want, size_t steps = STEPS + 2)
{
	vector<shared_ptr<const kz::Iterator>> it{first()};
	vector<size_t> at(1, 0);
	bool eager = gs_choice_(2, "eager");
	auto look = [&](size_t i) {
		if (at[i] >= want.size()) {
			gs_assert(!it[i], "no iterator past the end");
			return;
		}
		if (!it[i]) { gs_fail("the enumeration ended early"); return; }
		gs_assert(it[i]->last() == (at[i] + 1 == want.size()), "last mark");
		gs_assert_eq(it[i]->size(), 16, "size");
		assertB(it[i]->value(), want[at[i]], "value, whatever else was derived from the same iterator");
	};
	for (size_t i = 0; i < steps; i++) {
		size_t k = gs_choice_(it.size() + 1, i == 0 ? "p0" : i == 1 ? "p1" : i == 2 ? "p2" : i == 3 ? "p3" : i == 4 ? "p4" : "p5");
		if (k == it.size()) { it.push_back(first()); at.push_back(0); }
		else {
			if (!it[k]) return;
			it.push_back(it[k]->next());
			at.push_back(at[k] + 1);
		}
		if (eager) look(it.size() - 1);
	}
	for (size_t i = 0; i < it.size(); i++) look(i);
	gs_reach("end");
}
ENTRY c19_tree_iter_memory()
{
	vector<ref::B128> x{symB("x"), symB("y"), symB("z")};
	vector<uint64_t> w;
	for (auto b : x) { w.push_back(b.lo); w.push_back(b.hi); }
	auto m = make_shared<kz::StMemory>(w);
	iterTree([&]() { return m->iter(); }, x);
}
// an iterator over given values, no memory behind it
class SymIter final : public kz::Iterator {
public:
	SymIter(const vector<ref::B128> &v, size_t i) : v(v), i(i) {}
	pair<uint64_t, uint64_t> value() const override { return {v[i].lo, v[i].hi}; }
	bool last() const override { return i + 1 == v.size(); }
	size_t size() const override { return 16; }
	shared_ptr<const kz::Iterator> next() const override
	{
		if (last()) return {};
		return make_shared<SymIter>(v, i + 1);
	}
private:
	const vector<ref::B128> v;
	const size_t i;
};
class SymStream final : public kz::Stream {
public:
	explicit SymStream(const vector<ref::B128> &v) : v(v) {}
	shared_ptr<const kz::Iterator> iter() const override { return make_shared<SymIter>(v, 0); }
private:
	const vector<ref::B128> v;
};
ENTRY c19_tree_iter_ctr()
{
	const ref::B128 k1{0x0011223344556677, 0x8899aabbccddeeff}, k2{0x0123456789abcdef, 0xfedcba9876543210};
	ref::Kuz rk(k1, k2);
	auto key = make_shared<kz::Key>(make_shared<RawKeyData>(k1, k2));
	vector<ref::B128> x{symB("x"), symB("y"), symB("z")}, y;
	for (uint64_t i = 0; i < 3; i++) y.push_back(x[i] ^ rk.E({i, 77}));
	kz::StCTREncrypted st(make_shared<SymStream>(x), key, 77);
	iterTree([&]() { return st.iter(); }, y, STEPS);
}
