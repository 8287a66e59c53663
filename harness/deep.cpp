// The modes over any round function at all, on longer messages. No value is emitted: natively the round
// function is one particular function.
#include "anykey.h"
#include <goost/gost89/CFBSink.h>
#include <goost/gost89/CFBSource.h>
#include <goost/gost89/DataImit.h>
#include <goost/gost89/ImitedBlock.h>
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/BlkRaw.h>
#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>
#include <goost/magma/EncryptionBase.h>
#include <goost/magma/Imit.h>
using namespace goost;
using namespace std;
namespace mg = goost::magma;
namespace g8 = goost::gost89;
#ifdef THOROUGH
#define DEEP 400	// blocks
#else
#define DEEP 96
#endif

static vector<uint64_t> symIv(size_t n)
{
	vector<uint64_t> r(n);
	gs_symbolic(r.data(), n * 8, "iv");
	return r;
}
static Bytes part(const Bytes &b, size_t from, size_t to) { return Bytes(b.begin() + from, b.begin() + to); }
// the message in writes of the given sizes, over and over
static Bytes written(shared_ptr<const Sink> s, const Bytes &m, const vector<size_t> &sizes)
{
	size_t pos = 0;
	for (size_t i = 0; pos < m.size(); i++) {
		size_t e = min(m.size(), pos + sizes[i % sizes.size()]);
		s = s->write(toS(part(m, pos, e)));
		pos = e;
	}
	return collected(s->finalize());
}
static Bytes readAll(shared_ptr<const Source> s, size_t total, const vector<size_t> &sizes)
{
	Bytes out;
	for (size_t i = 0; i <= total + 1; i++) {
		size_t n = sizes[i % sizes.size()];
		auto r = s->read(n);
		size_t want = min(n, total - out.size());
		gs_assert_eq(r.first.size(), want, "a read yields what was asked for until the data ends");
		for (auto b : r.first) out.push_back(static_cast<unsigned char>(b));
		s = r.second;
		if (want < n) return out;
	}
	gs_fail("the source does not end");
	return out;
}
static vector<size_t> pattern()
{
	switch (gs_choice_(5, "pattern")) {
	case 0: return {100000};
	case 1: return {1};
	case 2: return {8};
	case 3: return {3, 17, 1, 8, 40, 7};
	default: return {9, 64, 15};
	}
}
static size_t someLen() { return 8 * DEEP - gs_choice_(9, "cut"); }

template<class MKS> static void sinkDeep(size_t regs, MKS mk)
{
	auto iv = symIv(regs);
	auto sizes = pattern();
	auto m = gs_bytes(someLen(), "msg");
	auto out = written(mk(make_shared<CollectSink>(), make_shared<AnyKey>(), iv), m, sizes);
	assertBytes(out, ref::cfb(RefAnyKey(), iv, m, true), "ciphertext of a long message over any round function");
	gs_reach("end");
}
template<class MKS> static void sourceDeep(size_t regs, MKS mk)
{
	auto iv = symIv(regs);
	auto sizes = pattern();
	auto c = gs_bytes(someLen(), "ct");
	auto out = readAll(mk(make_shared<VecSource>(c), make_shared<AnyKey>(), iv), c.size(), sizes);
	assertBytes(out, ref::cfb(RefAnyKey(), iv, c, false), "plaintext of a long message over any round function");
	gs_reach("end");
}
typedef shared_ptr<const mg::Key> KeyP;
ENTRY c11_deep() { sinkDeep(1, [](shared_ptr<const Sink> s, KeyP k, vector<uint64_t> r) { return make_shared<g8::CFBSink>(s, k, r[0]); }); }
ENTRY c13_deep() { sinkDeep(2, [](shared_ptr<const Sink> s, KeyP k, vector<uint64_t> r) { return make_shared<mg::CFBSink>(s, k, r[0], r[1]); }); }
ENTRY c12_deep() { sourceDeep(1, [](shared_ptr<const Source> s, KeyP k, vector<uint64_t> r) { return make_shared<g8::CFBSource>(s, k, r[0]); }); }
ENTRY c14_deep() { sourceDeep(2, [](shared_ptr<const Source> s, KeyP k, vector<uint64_t> r) { return make_shared<mg::CFBSource>(s, k, r[0], r[1]); }); }
ENTRY c10_deep_sink()
{
	size_t first = 8 * gs_choice_(3, "first");
	auto m = gs_bytes(8 * DEEP, "msg");
	auto s = mg::ECBSink(make_shared<CollectSink>(), make_shared<AnyKey>()).write(toS(part(m, 0, first)));
	assertBytes(collected(s->write(toS(part(m, first, m.size())))->finalize()), ref::ecb(RefAnyKey(), m, true), "long ECB message over any round function");
	gs_reach("end");
}
ENTRY c10_deep_source()
{
	auto c = gs_bytes(8 * DEEP, "ct");
	auto out = drain(make_shared<mg::ECBSource>(make_shared<VecSource>(c), make_shared<AnyKey>()), 8 + gs_choice_(3, "extra"), DEEP + 1);
	assertBytes(out, ref::ecb(RefAnyKey(), c, false), "long ECB ciphertext over any round function");
	gs_reach("end");
}
ENTRY c15_deep()
{
	auto m = gs_bytes(someLen(), "msg");
	auto v = num(mg::Imit(make_shared<VecSource>(m), anyLazyKey()).value());
	gs_assert_eq(v, ref::magMac(RefAnyLazyKey(), m), "MAC of a long message over any substitution");
	gs_reach("end");
}
ENTRY c16_deep()
{
	auto m = gs_bytes(someLen(), "msg");
	auto v = g8::DataImit(m, anyLazyKey()).value();
	gs_assert_eq(v.size(), 8, "size");
	gs_assert_eq(ref::loadLE(v.data()), ref::gostImit(RefAnyLazyKey(), m), "imitation insert of long data over any substitution");
	gs_reach("end");
}
