// Large messages: all but a few blocks are fixed, and the round function is a simple one of a user's own.
// What matters here is how the pieces are counted and joined, not the cipher.
#include "common.h"
#include <goost/gost89/CFBSink.h>
#include <goost/gost89/CFBSource.h>
#include <goost/gost89/DataImit.h>
#include <goost/kuznyechik/Imit.h>
#include <goost/kuznyechik/Iterator.h>
#include <goost/kuznyechik/StCTREncrypted.h>
#include <goost/kuznyechik/StMemory.h>
#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>
#include <goost/magma/Imit.h>
#include <goost/magma/Key.h>
using namespace goost;
using namespace std;
namespace kz = goost::kuznyechik;
namespace mg = goost::magma;
namespace g8 = goost::gost89;
#ifdef THOROUGH
#define FARBYTES 140003	// more than 2^17
#define FARMAC 600
#else
#define FARBYTES 66003	// more than 2^16
#define FARMAC 258
#endif

static uint32_t mixed(uint32_t v, int i) { return v ^ v << 7 ^ uint32_t(i + 1) * 0x9e3779b9u; }
class SimpleKey final : public mg::Key {
public:
	uint32_t transform(uint32_t v, int i) const override { return mixed(v, i); }
};
struct RefSimple : ref::Feistel<RefSimple> {
	uint32_t round(int i, uint32_t v) const { return mixed(v, i); }
};
class SimpleSbox final : public mg::Sbox {
public:
	uint32_t transform(uint32_t v) const override { return v ^ v << 7; }
};
struct RefSimpleLazy : ref::Feistel<RefSimpleLazy> {
	uint32_t round(int i, uint32_t v) const
	{
		v += 0x01234567u * uint32_t(i + 1);
		return v ^ v << 7;
	}
};
static shared_ptr<const mg::LazyKey> simpleLazy()
{
	vector<uint32_t> w;
	for (uint32_t i = 0; i < 8; i++) w.push_back(0x01234567u * (i + 1));
	return make_shared<mg::LazyKey>(w, make_shared<SimpleSbox>());
}
// n bytes, the last eight of which are arbitrary
static Bytes message(size_t n)
{
	auto t = gs_bytes(8, "tail");
	Bytes b(n);
	for (size_t i = 0; i < n; i++) b[i] = i + 8 < n ? uint8_t(i * 7 + (i >> 8) * 5 + 3) : t[i + 8 - n];
	return b;
}
static Bytes part(const Bytes &b, size_t from, size_t to) { return Bytes(b.begin() + from, b.begin() + to); }
static Bytes joined(const vector<SBytes> &v)
{
	Bytes r;
	for (auto &x : v) for (auto b : x) r.push_back(static_cast<unsigned char>(b));
	return r;
}
// a sink that notes what was written in which pieces
class Pieces final : public Sink {
public:
	explicit Pieces(const shared_ptr<vector<SBytes>> &all) : all(all) {}
	shared_ptr<const Sink> write(const SBytes &d) const override
	{
		all->push_back(d);
		return make_shared<Pieces>(all);
	}
	shared_ptr<const Sink> finalize() const override { return make_shared<Pieces>(all); }
private:
	const shared_ptr<vector<SBytes>> all;
};
static void same(const Bytes &got, const Bytes &want, const char *msg)
{
	gs_assert_eq(got.size(), want.size(), msg);
	size_t bad = 0;
	for (size_t i = 0; i + 16 < got.size() && i < want.size(); i++) bad += got[i] != want[i];
	gs_assert_eq(bad, 0, msg);
	for (size_t i = got.size() < 16 ? 0 : got.size() - 16; i < got.size() && i < want.size(); i++) gs_assert_eq(got[i], want[i], msg);
}
template<class MK> static void sinkFar(size_t n, size_t cut, MK mk, const Bytes &m, const Bytes &want)
{
	auto all = make_shared<vector<SBytes>>();
	shared_ptr<const Sink> s = mk(make_shared<Pieces>(all));
	if (cut) s = s->write(toS(part(m, 0, cut)));
	s->write(toS(part(m, cut, n)))->finalize();
	same(joined(*all), want, "a large message in one or two writes");
	gs_reach("end");
}
template<class MK> static void sourceFar(size_t n, size_t cut, MK mk, const Bytes &want)
{
	vector<SBytes> all;
	shared_ptr<const Source> s = mk();
	size_t got = 0;
	for (size_t i = 0; got < n && i < n; i++) {
		auto r = s->read(cut && !i ? cut : 2 * n);
		gs_assert(!r.first.empty(), "data until the end");
		got += r.first.size();
		all.push_back(r.first);
		s = r.second;
	}
	same(joined(all), want, "a large message read at once, or a part and the rest");
	gs_reach("end");
}
static size_t cut8() { return gs_choice_(2, "cut") ? 4096 + 8 : 0; }
static size_t cut() { return gs_choice_(2, "cut") ? 4099 : 0; }
ENTRY c10_far_sink()
{
	auto m = message(FARBYTES / 8 * 8);
	sinkFar(m.size(), cut8(), [](shared_ptr<const Sink> s) { return make_shared<mg::ECBSink>(s, make_shared<SimpleKey>()); }, m, ref::ecb(RefSimple(), m, true));
}
ENTRY c10_far_source()
{
	auto m = message(FARBYTES / 8 * 8);
	sourceFar(m.size(), cut8(), [&]() { return make_shared<mg::ECBSource>(make_shared<VecSource>(m), make_shared<SimpleKey>()); }, ref::ecb(RefSimple(), m, false));
}
static const uint64_t I0 = 0x0123456789abcdef, I1 = 0xfedcba9876543211;
ENTRY c11_far()
{
	auto m = message(FARBYTES);
	sinkFar(m.size(), cut(), [](shared_ptr<const Sink> s) { return make_shared<g8::CFBSink>(s, make_shared<SimpleKey>(), I0); }, m, ref::cfb(RefSimple(), {I0}, m, true));
}
ENTRY c12_far()
{
	auto m = message(FARBYTES);
	sourceFar(m.size(), cut(), [&]() { return make_shared<g8::CFBSource>(make_shared<VecSource>(m), make_shared<SimpleKey>(), I0); }, ref::cfb(RefSimple(), {I0}, m, false));
}
ENTRY c13_far()
{
	auto m = message(FARBYTES);
	sinkFar(m.size(), cut(), [](shared_ptr<const Sink> s) { return make_shared<mg::CFBSink>(s, make_shared<SimpleKey>(), I0, I1); }, m, ref::cfb(RefSimple(), {I0, I1}, m, true));
}
ENTRY c14_far()
{
	auto m = message(FARBYTES);
	sourceFar(m.size(), cut(), [&]() { return make_shared<mg::CFBSource>(make_shared<VecSource>(m), make_shared<SimpleKey>(), I0, I1); }, ref::cfb(RefSimple(), {I0, I1}, m, false));
}
ENTRY c15_far()
{
	auto m = message(FARBYTES);
	gs_assert_eq(num(mg::Imit(make_shared<VecSource>(m), simpleLazy()).value()), ref::magMac(RefSimpleLazy(), m), "MAC of a large message");
	gs_reach("end");
}
ENTRY c16_far()
{
	auto m = message(FARBYTES);
	gs_assert_eq(ref::loadLE(g8::DataImit(m, simpleLazy()).value().data()), ref::gostImit(RefSimpleLazy(), m), "imitation insert of a large message");
	gs_reach("end");
}
// ------------------------------------------------------------------ 128-bit cipher
static const ref::B128 RFC_K1{0x0011223344556677ull, 0x8899aabbccddeeffull}, RFC_K2{0x0123456789abcdefull, 0xfedcba9876543210ull};
ENTRY c04_far()
{
	auto last = symB("last");
	vector<uint64_t> w;
	vector<ref::B128> d;
	for (uint64_t i = 0; i < FARMAC; i++) d.push_back(i + 1 < FARMAC ? ref::B128{0x0123456789abcdef * (i + 1), 0xfedcba9876543211 * (i + 3)} : last);
	for (auto &x : d) {
		w.push_back(x.lo);
		w.push_back(x.hi);
	}
	auto key = make_shared<kz::Key>(make_shared<RawKeyData>(RFC_K1, RFC_K2));
	assertB(kz::Imit(make_shared<kz::StMemory>(w), key).value(), ref::kuzMac(ref::Kuz(RFC_K1, RFC_K2), d), "MAC of a long message");
	gs_reach("end");
}
ENTRY c06_far()
{
	auto x = gs_sym<uint64_t>("x");
	size_t n = FARBYTES / 8 | 1;	// words
	vector<uint64_t> w(n);
	for (size_t i = 0; i < n; i++) w[i] = i + 2 < n ? i * 0x9e3779b97f4a7c15 : x ^ i;
	auto it = make_shared<kz::StMemory>(w)->iter();
	size_t bad = 0, blocks = 0;
	while (it && blocks < n) {
		auto v = it->value();
		if (2 * blocks + 3 < n) bad += (v.first != w[2 * blocks]) + (v.second != w[2 * blocks + 1]);
		else {
			gs_assert_eq(v.first, w[2 * blocks], "words late in a large memory");
			gs_assert_eq(v.second, 2 * blocks + 1 < n ? w[2 * blocks + 1] : 0, "words late in a large memory");
		}
		bad += it->last() != (2 * blocks + 2 >= n);
		bad += it->size() != (2 * blocks + 1 < n ? 16 : 8);
		it = it->next();
		blocks++;
	}
	gs_assert_eq(bad, 0, "blocks of a large memory");
	gs_assert_eq(blocks, (n + 1) / 2, "number of blocks of a large memory");
	gs_reach("end");
}
