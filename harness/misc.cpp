#include "common.h"
#include <goost/gost89/CFBSink.h>
#include <goost/gost89/CFBSource.h>
#include <goost/gost89/DataImit.h>
#include <goost/kuznyechik/BlkCached.h>
#include <goost/kuznyechik/BlkEncrypted.h>
#include <goost/kuznyechik/BlkIncremented.h>
#include <goost/kuznyechik/BlkString.h>
#include <goost/kuznyechik/BlkXored.h>
#include <goost/kuznyechik/Imit.h>
#include <goost/kuznyechik/Iterator.h>
#include <goost/kuznyechik/KeyDataString.h>
#include <goost/kuznyechik/StCTREncrypted.h>
#include <goost/kuznyechik/StMemory.h>
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/BlkRaw.h>
#include <goost/magma/BlkString.h>
#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
#include <goost/magma/Container.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>
#include <goost/magma/Imit.h>
#include <goost/magma/KeyCachedData.h>
#include <goost/magma/KeyDataNative.h>
#include <goost/magma/KeyDataString.h>
#include <goost/magma/SboxR3412.h>
#include <stdexcept>
using namespace goost;
using namespace std;
namespace kz = goost::kuznyechik;
namespace mg = goost::magma;
namespace g8 = goost::gost89;

static const ref::B128 RFC_K1{0x0011223344556677ull, 0x8899aabbccddeeffull}, RFC_K2{0x0123456789abcdefull, 0xfedcba9876543210ull};
static Bytes part(const Bytes &b, size_t from, size_t to) { return Bytes(b.begin() + from, b.begin() + to); }
static Bytes cat(const Bytes &a, const Bytes &b)
{
	Bytes r = a;
	for (auto x : b) r.push_back(x);
	return r;
}

// ================================================================== C18 caching
// a block that fails its first `fails` evaluations and counts the successful ones; `drift`: the value
// of every later evaluation differs
struct Count { int calls = 0, good = 0; };
class FlakyBlock final : public kz::Block {
public:
	FlakyBlock(ref::B128 v, int fails, const shared_ptr<Count> &c) : v(v), fails(fails), c(c) {}
	pair<uint64_t, uint64_t> value() const override
	{
		if (c->calls++ < fails) throw runtime_error("not yet");
		c->good++;
		return {v.lo, v.hi};
	}
private:
	const ref::B128 v;
	const int fails;
	const shared_ptr<Count> c;
};
ENTRY c18_blkcached()
{
	auto x = symB("x");
	int fails = gs_choice_(4, "fails");
	auto c = make_shared<Count>();
	kz::BlkCached b(make_shared<FlakyBlock>(x, fails, c));
	gs_assert_eq(c->calls, 0, "nothing is evaluated before it is needed");
	int thrown = 0;
	for (int i = 0; i < fails; i++) {
		try { b.value(); } catch (const runtime_error &) { thrown++; }
	}
	gs_assert_eq(thrown, fails, "a failure to evaluate is reported each time");
	const kz::BlkCached copy(b);
	for (int i = 0; i < 3; i++) {
		assertB(b.value(), x, "the cache returns the value of the block");
		assertB(copy.value(), x, "a copy of the cache returns the value of the block");
	}
	gs_reach("end");
}
ENTRY c18_blkcached_once()
{
	auto x = symB("x");
	auto c = make_shared<Count>();
	kz::BlkCached b(make_shared<FlakyBlock>(x, 0, c));
	for (int i = 0; i < 3; i++) assertB(b.value(), x, "value");
	gs_assert_eq(c->good, 1, "the block is evaluated once");
	gs_reach("end");
}
// key data that fails at its k-th access
class FlakyKeyData final : public mg::KeyData {
public:
	FlakyKeyData(const vector<uint32_t> &w, int failAt, const shared_ptr<vector<int>> &n) : w(w), failAt(failAt), n(n) {}
	uint32_t key(int i) const override
	{
		if ((*n)[8]++ == failAt) throw runtime_error("key store failed");
		(*n)[i]++;
		return w[i];
	}
private:
	const vector<uint32_t> w;
	const int failAt;
	const shared_ptr<vector<int>> n;
};
ENTRY c18_keycached()
{
	vector<uint32_t> w(8);
	gs_symbolic(w.data(), 32, "key");
	int failAt = int(gs_choice_(9, "failAt")), first = gs_choice_(8, "first");
	auto n = make_shared<vector<int>>(9);
	mg::KeyCachedData k(make_unique<FlakyKeyData>(w, failAt, n));
	bool thrown = false;
	try {
		gs_assert_eq(k.key(first), w[first], "key word before any failure");
	} catch (const runtime_error &) {
		thrown = true;
		gs_reach("failed");
	}
	for (int r = 0; r < 2; r++)
		for (int i = 7; i >= 0; i--) {
			try {
				gs_assert_eq(k.key(i), w[i], "key words after a failure are right");
			} catch (const runtime_error &) {
				gs_assert(!thrown, "the failure happens once");
				thrown = true;
				i++;
			}
		}
	gs_reach("end");
}
ENTRY c18_keycached_once()
{
	vector<uint32_t> w(8);
	gs_symbolic(w.data(), 32, "key");
	auto n = make_shared<vector<int>>(9);
	mg::KeyCachedData k(make_unique<FlakyKeyData>(w, -1, n));
	for (int r = 0; r < 3; r++) for (int i = 0; i < 8; i++) gs_assert_eq(k.key(i), w[i], "key word");
	for (int i = 0; i < 8; i++) gs_assert((*n)[i] <= 1, "key data is asked at most once for each word");
	gs_reach("end");
}
// the key schedule of the 128-bit cipher caches its round keys: a failed load does not spoil the key
class FlakyData final : public kz::Key::Data {
public:
	FlakyData(int lowFails, int highFails) : l(make_shared<Count>()), h(make_shared<Count>()), lf(lowFails), hf(highFails) {}
	shared_ptr<const kz::Block> low() const override { return make_shared<FlakyBlock>(RFC_K2, lf, l); }
	shared_ptr<const kz::Block> high() const override { return make_shared<FlakyBlock>(RFC_K1, hf, h); }
private:
	const shared_ptr<Count> l, h;
	const int lf, hf;
};
ENTRY c18_key_fail()
{
	auto x = symB("x");
	int lf = gs_choice_(3, "low"), hf = gs_choice_(3, "high");
	shared_ptr<const kz::Key> key;
	{
		auto data = make_shared<FlakyData>(lf, hf);
		key = make_shared<kz::Key>(data);
	}
	ref::Kuz rk(RFC_K1, RFC_K2);
	int tries = 0;
	while (true) {
		try {
			assertB(key->encrypt(blk(x))->value(), rk.E(x), "a key whose data failed to load encrypts correctly later");
			break;
		} catch (const runtime_error &) {
			tries++;
			gs_assert(tries <= lf + hf, "a failure happens only while the data fails");
		}
	}
	assertB(key->encrypt(blk(x))->value(), rk.E(x), "and again");
	gs_reach("end");
}
// cached and uncached keys are the same cipher
ENTRY c18_cached_equals_native()
{
	auto k = magKey();
	auto x = gs_sym<uint64_t>("x");
	auto sb = make_shared<mg::SboxTwisted>(make_unique<mg::SboxByte>(k.box));
	auto cached = make_shared<mg::LazyKey>(make_unique<mg::KeyCachedData>(make_unique<mg::KeyDataNative>(k.words)), sb);
	auto a = num(mg::BlkEncrypted(make_shared<mg::BlkRaw>(x), cached).value());
	auto b = num(mg::BlkEncrypted(make_shared<mg::BlkRaw>(x), k.key).value());
	gs_assert_eq(a, b, "cached and uncached key data encrypt alike");
	gs_assert_eq(num(mg::BlkEncrypted(make_shared<mg::BlkRaw>(x), cached).value()), b, "and again");
	gs_assert_eq(num(mg::BlkDecrypted(make_shared<mg::BlkRaw>(a), cached).value()), x, "and decrypt");
	gs_reach("end");
}

// ================================================================== C19 persistence
// Operations on a sink, source, stream or block never change it: what a derived object yields does
// not depend on what else was derived from the same object, in any order.
template<class MK> static void sinkPersist(const MagKey &k, MK mk, function<Bytes(const Bytes &)> want, size_t unit)
{
	size_t a = unit * gs_choice_(unit == 8 ? 3 : 10, "a"), b = unit * gs_choice_(unit == 8 ? 3 : 5, "b"), order = gs_choice_(3, "order");
	auto m1 = gs_bytes(a, "m1"), m2 = gs_bytes(b, "m2"), m3 = gs_bytes(b, "m3");
	shared_ptr<const Sink> s0 = mk();
	auto s1 = s0->write(toS(m1));
	shared_ptr<const Sink> s2, s3;
	if (order == 0) { s2 = s1->write(toS(m2)); s3 = s1->write(toS(m3)); }
	else if (order == 1) { s3 = s1->write(toS(m3)); s2 = s1->write(toS(m2)); }
	else { s1->finalize(); s3 = s1->write(toS(m3)); s3->finalize(); s2 = s1->write(toS(m2)); }
	assertBytes(collected(s2->finalize()), want(cat(m1, m2)), "one continuation");
	assertBytes(collected(s3->finalize()), want(cat(m1, m3)), "another continuation of the same sink");
	assertBytes(collected(s1->finalize()), want(m1), "the sink they were derived from");
	assertBytes(collected(s2->finalize()), want(cat(m1, m2)), "finalize() again");
	assertBytes(collected(s0->finalize()), want({}), "the first sink is still empty");
	gs_reach("end");
}
ENTRY c19_sink_gost89()
{
	auto k = magKey();
	auto iv = gs_sym<uint64_t>("iv");
	sinkPersist(k, [&]() { return make_shared<g8::CFBSink>(make_shared<CollectSink>(), k.key, iv); },
		[&](const Bytes &m) { return ref::cfb(k.ref, {iv}, m, true); }, 1);
}
ENTRY c19_sink_magma()
{
	auto k = magKey();
	auto ivl = gs_sym<uint64_t>("ivl"), ivr = gs_sym<uint64_t>("ivr");
	sinkPersist(k, [&]() { return make_shared<mg::CFBSink>(make_shared<CollectSink>(), k.key, ivl, ivr); },
		[&](const Bytes &m) { return ref::cfb(k.ref, {ivl, ivr}, m, true); }, 1);
}
ENTRY c19_sink_ecb()
{
	auto k = magKey();
	sinkPersist(k, [&]() { return make_shared<mg::ECBSink>(make_shared<CollectSink>(), k.key); },
		[&](const Bytes &m) { return ref::ecb(k.ref, m, true); }, 8);
}
template<class MK> static void sourcePersist(MK mk, const Bytes &want, size_t a, size_t b)
{
	size_t n = want.size();
	shared_ptr<const Source> s0 = mk();
	auto r1 = s0->read(a);
	auto r2 = s0->read(b);
	auto r11 = r1.second->read(b);
	auto r1again = s0->read(a);
	auto e1 = min(a, n), e2 = min(b, n), e11 = min(e1 + b, n);
	assertBytes(fromS(r1.first), part(want, 0, e1), "first read");
	assertBytes(fromS(r2.first), part(want, 0, e2), "another read of the same source starts at the same place");
	assertBytes(fromS(r11.first), part(want, e1, e11), "read of the successor");
	assertBytes(fromS(r1again.first), part(want, 0, e1), "the first read again");
	assertBytes(fromS(r1again.second->read(b).first), part(want, e1, e11), "and its successor");
	gs_reach("end");
}
ENTRY c19_source_gost89()
{
	auto k = magKey();
	auto iv = gs_sym<uint64_t>("iv");
	size_t n = gs_choice_(4, "n") * 6, a = gs_choice_(11, "a"), b = gs_choice_(5, "b") * 3;
	auto c = gs_bytes(n, "ct");
	sourcePersist([&]() { return make_shared<g8::CFBSource>(make_shared<VecSource>(c), k.key, iv); }, ref::cfb(k.ref, {iv}, c, false), a, b);
}
ENTRY c19_source_magma()
{
	auto k = magKey();
	auto ivl = gs_sym<uint64_t>("ivl"), ivr = gs_sym<uint64_t>("ivr");
	size_t n = gs_choice_(4, "n") * 6, a = gs_choice_(11, "a"), b = gs_choice_(5, "b") * 3;
	auto c = gs_bytes(n, "ct");
	sourcePersist([&]() { return make_shared<mg::CFBSource>(make_shared<VecSource>(c), k.key, ivl, ivr); },
		ref::cfb(k.ref, {ivl, ivr}, c, false), a, b);
}
ENTRY c19_source_ecb()
{
	auto k = magKey();
	size_t n = 8 * gs_choice_(4, "n");
	auto c = gs_bytes(n, "ct");
	sourcePersist([&]() { return make_shared<mg::ECBSource>(make_shared<VecSource>(c), k.key); }, ref::ecb(k.ref, c, false), 8, 8);
}
// one key object used by interleaved operations of all kinds
ENTRY c19_shared_key()
{
	auto k = magKey();
	auto iv = gs_sym<uint64_t>("iv"), x = gs_sym<uint64_t>("x");
	auto m = gs_bytes(16, "m"), c = gs_bytes(16, "c");
	auto e = make_shared<mg::BlkEncrypted>(make_shared<mg::BlkRaw>(x), k.key);
	auto s1 = make_shared<g8::CFBSink>(make_shared<CollectSink>(), k.key, iv)->write(toS(part(m, 0, 9)));
	gs_assert_eq(num(e->value()), k.ref.E(x), "block");
	auto q = make_shared<g8::CFBSource>(make_shared<VecSource>(c), k.key, iv)->read(5);
	auto mac = mg::Imit(make_shared<VecSource>(m), k.key);
	auto v1 = num(mac.value());
	auto s2 = s1->write(toS(part(m, 9, 16)));
	auto im = g8::DataImit(m, k.key);
	auto i1 = im.value();
	assertBytes(drain(q.second, 4), part(ref::cfb(k.ref, {iv}, c, false), 5, 16), "source");
	assertBytes(collected(s2->finalize()), ref::cfb(k.ref, {iv}, m, true), "sink");
	gs_assert_eq(num(mac.value()), v1, "MAC again");
	gs_assert_eq(v1, ref::magMac(k.ref, m), "MAC");
	assertBytes(im.value(), i1, "imitovstavka again");
	gs_assert_eq(ref::loadLE(i1.data()), ref::gostImit(k.ref, m), "imitovstavka");
	gs_assert_eq(num(e->value()), k.ref.E(x), "block again");
	gs_reach("end");
}
ENTRY c19_kuz()
{
	auto x = symB("x"), y = symB("y");
	auto iv = gs_sym<uint64_t>("iv");
	ref::Kuz rk(RFC_K1, RFC_K2);
	auto key = make_shared<kz::Key>(make_shared<RawKeyData>(RFC_K1, RFC_K2));
	auto e = make_shared<kz::BlkEncrypted>(blk(x), key);
	assertB(e->value(), rk.E(x), "block");
	vector<uint64_t> w{x.lo, x.hi, y.lo, y.hi};
	auto mem = make_shared<kz::StMemory>(w);
	kz::StCTREncrypted st(mem, key, iv);
	auto i0 = st.iter();
	auto n1 = i0->next();
	auto j0 = st.iter();
	assertB(n1->value(), y ^ rk.E({1, iv}), "second block");
	assertB(j0->value(), x ^ rk.E({0, iv}), "a second iterator starts at the beginning");
	assertB(i0->value(), x ^ rk.E({0, iv}), "next() does not move the iterator");
	assertB(i0->next()->value(), y ^ rk.E({1, iv}), "next() again");
	w[0]++;
	assertB(mem->iter()->value(), x, "the stream keeps its own copy of the data");
	assertB(e->value(), rk.E(x), "block again");
	gs_reach("end");
}
ENTRY c19_kuz_mac()
{
	auto x = symB("x"), y = symB("y");
	ref::Kuz rk(RFC_K1, RFC_K2);
	auto key = make_shared<kz::Key>(make_shared<RawKeyData>(RFC_K1, RFC_K2));
	auto mem = make_shared<kz::StMemory>(vector<uint64_t>{x.lo, x.hi, y.lo, y.hi});
	kz::Imit im(mem, key);
	assertB(im.value(), ref::kuzMac(rk, {x, y}), "MAC");
	assertB(im.value(), ref::kuzMac(rk, {x, y}), "MAC again");
	assertB(mem->iter()->value(), x, "the stream is untouched");
	gs_reach("end");
}

// ================================================================== C20 memory
// Every operation on inputs of every length stays inside its buffers (checked on every instruction
// of every entry of every property); here, in addition, nothing is leaked, and objects outlive what
// they were built from.
template<class F> static void noLeak(F f)
{
	f();	// whatever is set up once and kept
	size_t before = gs_heap();
	f();
	gs_assert_eq(gs_heap(), before, "all memory is released");
	gs_reach("end");
}
ENTRY c20_leak_streams()
{
	uint32_t w[8];
	gs_symbolic(w, sizeof w, "key");
	auto iv = gs_sym<uint64_t>("iv");
	size_t n = gs_choice_(18, "len"), what = gs_choice_(6, "what");
	auto m = gs_bytes(n, "msg");
	noLeak([&]() {
		Bytes box(64, 0);
		auto k = magKeyFrom(w, box.data());
		if (what == 0) collected(make_shared<g8::CFBSink>(make_shared<CollectSink>(), k.key, iv)->write(toS(m))->finalize());
		if (what == 1) collected(make_shared<mg::CFBSink>(make_shared<CollectSink>(), k.key, iv, iv)->write(toS(m))->finalize());
		if (what == 2) drain(make_shared<g8::CFBSource>(make_shared<VecSource>(m), k.key, iv), 5);
		if (what == 3) drain(make_shared<mg::CFBSource>(make_shared<VecSource>(m), k.key, iv, iv), 5);
		if (what == 4) {
			try { drain(make_shared<mg::ECBSource>(make_shared<VecSource>(m), k.key), 8); } catch (const runtime_error &) {}
		}
		if (what == 5) {
			try { mg::ECBSink(make_shared<CollectSink>(), k.key).write(toS(m)); } catch (const runtime_error &) {}
		}
	});
}
ENTRY c20_leak_mac()
{
	uint32_t w[8];
	gs_symbolic(w, sizeof w, "key");
	size_t n = gs_choice_(18, "len");
	auto m = gs_bytes(n, "msg");
	noLeak([&]() {
		Bytes box(64, 0);
		auto k = magKeyFrom(w, box.data());
		mg::Imit(make_shared<VecSource>(m), k.key).value();
		g8::DataImit(m, k.key).value();
	});
}
ENTRY c20_leak_kuz()
{
	size_t n = 1 + gs_choice_(5, "words");
	vector<uint64_t> w(n);
	gs_symbolic(w.data(), 8 * n, "words");
	noLeak([&]() {
		auto st = make_shared<kz::StMemory>(w);
		auto it = st->iter();
		st.reset();
		while (it) {
			it->value();
			it = it->next();
		}
	});
}
ENTRY c20_leak_kuz_ctr()
{
	size_t n = 1 + gs_choice_(3, "words");
	vector<uint64_t> w(n, 7);
	auto iv = gs_sym<uint64_t>("iv");
	noLeak([&]() {
		auto key = make_shared<kz::Key>(make_shared<RawKeyData>(RFC_K1, RFC_K2));
		auto it = kz::StCTREncrypted(make_shared<kz::StMemory>(w), key, iv).iter();
		while (it) {
			it->value();
			it = it->next();
		}
	});
}
// objects keep alive what they need: everything the caller handed in is dropped before use
ENTRY c20_lifetime_sink()
{
	auto k = magKey();
	auto iv = gs_sym<uint64_t>("iv");
	auto m = gs_bytes(11, "msg");
	auto rk = k.ref;
	shared_ptr<const Sink> s, t;
	{
		auto box = k.box;
		auto sb = make_shared<mg::SboxTwisted>(make_unique<mg::SboxByte>(box));
		auto key = make_shared<mg::LazyKey>(k.words, sb);
		k.key.reset();
		auto below = make_shared<CollectSink>();
		s = make_shared<g8::CFBSink>(below, key, iv);
		t = make_shared<mg::CFBSink>(below, key, iv, iv);
		for (auto &b : box) b = 0;
	}
	s = s->write(toS(m))->finalize();
	t = t->write(toS(m))->finalize();
	assertBytes(collected(s), ref::cfb(rk, {iv}, m, true), "sink after its key and substitution were dropped by the caller");
	assertBytes(collected(t), ref::cfb(rk, {iv, iv}, m, true), "sink after its key and substitution were dropped by the caller");
	gs_reach("end");
}
ENTRY c20_lifetime_source()
{
	auto k = magKey();
	auto iv = gs_sym<uint64_t>("iv");
	auto c = gs_bytes(11, "ct");
	auto rk = k.ref;
	shared_ptr<const Source> s, t;
	{
		auto key = k.key;
		k.key.reset();
		auto below = make_shared<VecSource>(c);
		s = make_shared<g8::CFBSource>(below, key, iv)->read(2).second;
		t = make_shared<mg::CFBSource>(below, key, iv, iv)->read(2).second;
	}
	assertBytes(drain(s, 3), part(ref::cfb(rk, {iv}, c, false), 2, 11), "source after its key was dropped by the caller");
	assertBytes(drain(t, 3), part(ref::cfb(rk, {iv, iv}, c, false), 2, 11), "source after its key was dropped by the caller");
	gs_reach("end");
}
ENTRY c20_lifetime_block()
{
	auto k = magKey();
	auto x = gs_sym<uint64_t>("x");
	auto rk = k.ref;
	shared_ptr<const mg::Block> b;
	{
		auto raw = make_shared<mg::BlkRaw>(x);
		b = make_shared<mg::BlkDecrypted>(make_shared<mg::BlkEncrypted>(raw, k.key), k.key);
		k.key.reset();
	}
	gs_assert_eq(num(b->value()), x, "block after key and data were dropped by the caller");
	gs_reach("end");
}
ENTRY c20_lifetime_kuz()
{
	auto x = symB("x");
	unique_ptr<const kz::Block> b;
	{
		auto data = make_shared<RawKeyData>(RFC_K1, RFC_K2);
		auto key = make_shared<kz::Key>(data);
		data.reset();
		b = key->encrypt(blk(x));
	}
	assertB(b->value(), ref::Kuz(RFC_K1, RFC_K2).E(x), "encrypted block after the key was dropped by the caller");
	gs_reach("end");
}
// sources below that deliver fewer bytes than asked for at the end, of every length: no access outside the buffers
ENTRY c20_lengths()
{
	auto k = magKeyZ();
	auto iv = gs_sym<uint64_t>("iv");
	size_t n = gs_choice_(26, "len"), sz = 1 + gs_choice_(3, "size") * 7;
	auto m = gs_bytes(n, "msg");
	gs_assert_eq(collected(g8::CFBSink(make_shared<CollectSink>(), k.key, iv).write(toS(m))->finalize()).size(), n, "gost89 sink length");
	gs_assert_eq(collected(mg::CFBSink(make_shared<CollectSink>(), k.key, iv, iv).write(toS(m))->finalize()).size(), n, "magma sink length");
	gs_assert_eq(drain(make_shared<g8::CFBSource>(make_shared<VecSource>(m), k.key, iv), sz).size(), n, "gost89 source length");
	gs_assert_eq(drain(make_shared<mg::CFBSource>(make_shared<VecSource>(m), k.key, iv, iv), sz).size(), n, "magma source length");
	gs_reach("end");
}

// ================================================================== C21 errors
static bool refuses(function<void()> f)
{
	try { f(); } catch (const exception &) { return true; }
	return false;
}
ENTRY c21_magma_key_size()
{
	size_t n = gs_choice_(81, "size");
	int i = gs_choice_(8, "index");
	auto raw = gs_bytes(n, "digits");
	string s;
	unsigned v;
	for (size_t j = 0; j < n; j++) s.push_back(j / 8 == size_t(i) ? hexDigit(raw[j], v) : 'a');
	mg::KeyDataString k(s);
	if (n == 64) {
		k.key(i);
		gs_reach("accepted");
	} else {
		gs_assert(refuses([&]() { k.key(i); }), "a key of the wrong size is refused");
		gs_assert(refuses([&]() { k.key(i); }), "every time");
		gs_reach("refused");
	}
}
ENTRY c21_magma_key_use()
{
	size_t n = gs_choice_(81, "size");
	string s(n, '7');
	auto key = make_shared<mg::LazyKey>(s);
	auto x = gs_sym<uint64_t>("x");
	bool first = refuses([&]() { mg::BlkEncrypted(make_shared<mg::BlkRaw>(x), key).value(); });
	bool second = refuses([&]() { mg::BlkDecrypted(make_shared<mg::BlkRaw>(x), key).value(); });
	gs_assert(first == (n != 64), "a key text of the wrong size is refused on first use, and only such");
	gs_assert(second == (n != 64), "and on every later use");
	if (n != 64) {
		gs_assert(refuses([&]() { mg::ECBSink(make_shared<CollectSink>(), key).write(SBytes(8)); }), "ECBSink");
		gs_assert(refuses([&]() { g8::CFBSink(make_shared<CollectSink>(), key, x).write(SBytes(8)); }), "gost89::CFBSink");
		gs_assert(refuses([&]() { mg::CFBSink(make_shared<CollectSink>(), key, x, x).write(SBytes(1))->finalize(); }), "magma::CFBSink");
		gs_assert(refuses([&]() { g8::DataImit(Bytes(1), key).value(); }), "gost89::DataImit");
		gs_assert(refuses([&]() { mg::Imit(make_shared<VecSource>(Bytes(1)), key).value(); }), "magma::Imit");
		gs_reach("refused");
	} else gs_reach("accepted");
}
ENTRY c21_magma_key_index()
{
	string s(64, '1');
	mg::KeyDataString k(s);
	int i = gs_choice_(9, "which");
	if (i == 8) {
		i = gs_sym<int>("index");
		gs_assume((i < 0) | (i > 7));
	}
	bool r = refuses([&]() { k.key(i); });
	gs_assert(r == (i < 0 || i > 7), "a key index outside 0..7 is refused, and only such");
	gs_reach("end");
}
// an index outside the key is refused by every key store, whatever it was asked before
ENTRY c21_magma_index()
{
	vector<uint32_t> w(8);
	gs_symbolic(w.data(), 32, "key");
	int kind = gs_choice_(4, "store"), before = gs_choice_(2, "before");
	int i = gs_choice_(9, "which");
	if (i == 8) {
		i = gs_sym<int>("index");
		gs_assume((i < 0) | (i > 7));
	}
	shared_ptr<const mg::KeyData> k;
	if (kind == 0) k = make_shared<mg::KeyDataNative>(w);
	else if (kind == 1) k = make_shared<mg::KeyCachedData>(make_unique<mg::KeyDataNative>(w));
	else if (kind == 2) k = make_shared<mg::KeyDataString>(string(64, '5'));
	else k = make_shared<mg::KeyCachedData>(make_unique<mg::KeyDataString>(string(64, '5')));
	if (before) k->key(3);
	bool r = refuses([&]() { k->key(i); });
	gs_assert(r == (i < 0 || i > 7), "a key index outside 0..7 is refused by every key store, and only such");
	if (i >= 0 && i < 8 && kind < 2) gs_assert_eq(k->key(i), w[i], "and a good one is answered");
	gs_reach("end");
}
// a native key that is too short is refused on use
ENTRY c21_native_size()
{
	size_t n = gs_choice_(9, "words");
	auto key = make_shared<mg::LazyKey>(vector<uint32_t>(n, 0x01020304), make_shared<mg::SboxR3412>());
	auto x = gs_sym<uint64_t>("x");
	for (int i = 0; i < 2; i++) {
		gs_assert(refuses([&]() { mg::BlkEncrypted(make_shared<mg::BlkRaw>(x), key).value(); }) == (n < 8), "a key of too few words is refused, and only such");
		gs_assert(refuses([&]() { mg::BlkDecrypted(make_shared<mg::BlkRaw>(x), key).value(); }) == (n < 8), "in both directions");
	}
	gs_reach("end");
}
// a container whose key or table has the wrong size is refused
class SizedContainer final : public mg::Container {
public:
	SizedContainer(size_t k, size_t s) : k(k), s(s) {}
	SBytes key() const override { return SBytes(k); }
	SBytes mask() const override { return SBytes(32); }
	SBytes sbox() const override { return SBytes(s); }
private:
	const size_t k, s;
};
ENTRY c21_container_size()
{
	static const size_t near[] = {0, 1, 63, 64, 65, 128};
	size_t k = gs_choice_(67, "key"), s = near[gs_choice_(6, "sbox")];
	auto c = gs_bytes(8, "ct");
	bool r = refuses([&]() {
		mg::ECBSource src(make_shared<VecSource>(c), static_pointer_cast<const mg::Container>(make_shared<SizedContainer>(k, s)));
		src.read(8);
	});
	gs_assert(r == (k != 32 || s != 64), "a container with a key or table of the wrong size is refused, and only such");
	gs_reach("end");
}
ENTRY c21_kuz_key_size()
{
	size_t n = gs_choice_(81, "size");
	string s(n, '3');
	auto x = symB("x");
	bool r = refuses([&]() { kz::Key k(s); k.encrypt(blk(x))->value(); });
	gs_assert(r == (n != 64), "a key text of the wrong size is refused, and only such");
	gs_reach(n == 64 ? "accepted" : "refused");
}
// one character that is not a hexadecimal digit, anywhere
static char badDigit()
{
	auto c = gs_sym<unsigned char>("bad");
	gs_assume(!(((c >= '0') & (c <= '9')) | ((c >= 'a') & (c <= 'f')) | ((c >= 'A') & (c <= 'F'))));
	return char(c);
}
static string digits(size_t n)
{
	auto raw = gs_bytes(n, "digits");
	string s;
	unsigned v;
	for (size_t j = 0; j < n; j++) s.push_back(hexDigit(raw[j], v));
	return s;
}
ENTRY c21_bad_kuz_block()
{
	size_t n = 1 + gs_choice_(32, "len"), pos = gs_choice_(n, "pos");
	auto s = digits(n);
	s[pos] = badDigit();
	gs_assert(refuses([&]() { kz::BlkString(s).value(); }), "block text with a character that is not a digit is refused");
	gs_reach("end");
}
ENTRY c21_bad_mag_block()
{
	size_t n = 1 + gs_choice_(16, "len"), pos = gs_choice_(n, "pos");
	auto s = digits(n);
	s[pos] = badDigit();
	gs_assert(refuses([&]() { mg::BlkString(s).value(); }), "block text with a character that is not a digit is refused");
	gs_reach("end");
}
ENTRY c21_long_blocks()
{
	size_t n = gs_choice_(70, "len");
	string s(n, '9');
	gs_assert(refuses([&]() { kz::BlkString(s).value(); }) == (n > 32), "128-bit block text that is too long is refused");
	gs_assert(refuses([&]() { mg::BlkString(s).value(); }) == (n > 16), "64-bit block text that is too long is refused");
	gs_reach("end");
}
// the word the character is in, by itself and through the cipher
ENTRY c21_bad_mag_key()
{
	size_t pos = gs_choice_(64, "pos");
	string s(64, 'b');
	s[pos] = badDigit();
	gs_assert(refuses([&]() { mg::KeyDataString(s).key(int(pos / 8)); }), "key text with a character that is not a digit is refused");
	auto key = make_shared<mg::LazyKey>(s);
	for (int i = 0; i < 2; i++)
		gs_assert(refuses([&]() { mg::BlkEncrypted(make_shared<mg::BlkRaw>(7), key).value(); }), "and by every use of the key");
	gs_reach("end");
}
ENTRY c21_bad_kuz_key()
{
	size_t pos = gs_choice_(64, "pos");
	string s(64, 'b');
	s[pos] = badDigit();
	gs_assert(refuses([&]() { kz::Key k(s); k.encrypt(blk({1, 2}))->value(); }), "key text with a character that is not a digit is refused");
	gs_reach("end");
}
// failures of the sink or source below: reported to the caller, and the object that failed is unchanged
class FlakySink final : public Sink {
public:
	FlakySink(const Bytes &d, const shared_ptr<int> &fuse) : data(d), fuse(fuse) {}
	shared_ptr<const Sink> write(const SBytes &d) const override
	{
		if ((*fuse)-- == 0) throw runtime_error("disk full");
		return make_shared<FlakySink>(cat(data, fromS(d)), fuse);
	}
	shared_ptr<const Sink> finalize() const override { return make_shared<FlakySink>(data, fuse); }
	const Bytes data;
	const shared_ptr<int> fuse;
};
class FlakySource final : public Source {
public:
	FlakySource(const Bytes &d, size_t pos, const shared_ptr<int> &fuse) : data(d), pos(pos), fuse(fuse) {}
	pair<SBytes, shared_ptr<const Source>> read(size_t size) const override
	{
		if ((*fuse)-- == 0) throw runtime_error("read error");
		size_t e = min(data.size(), pos + size);
		return {toS(part(data, pos, e)), make_shared<FlakySource>(data, e, fuse)};
	}
	const Bytes data;
	const size_t pos;
	const shared_ptr<int> fuse;
};
template<class MK> static void sinkFault(MK mk, const Bytes &want, const Bytes &m, size_t cut)
{
	int at = gs_choice_(5, "failAt");
	auto fuse = make_shared<int>(at);
	shared_ptr<const Sink> s = mk(make_shared<FlakySink>(Bytes(), fuse));
	int failures = 0;
	auto attempt = [&](function<shared_ptr<const Sink>()> f) {
		for (int i = 0; i < 3; i++) {
			try { return f(); } catch (const runtime_error &) { failures++; }
		}
		gs_fail("the failure happened once, but is reported again and again");
		return s;
	};
	s = attempt([&]() { return s->write(toS(part(m, 0, cut))); });
	s = attempt([&]() { return s->write(toS(part(m, cut, m.size()))); });
	auto f = attempt([&]() { return s->finalize(); });
	gs_assert(failures <= 1, "one failure below is one failure above");
	gs_assert(failures == (*fuse < 0), "a failure below is reported, and no other");
	auto c = dynamic_pointer_cast<const FlakySink>(f);
	gs_assert(bool(c), "finalize() returns the sink below");
	assertBytes(c->data, want, "retrying the failed call gives the right ciphertext");
	gs_reach("end");
}
ENTRY c21_fault_sink_gost89()
{
	auto k = magKeyZ();
	auto iv = gs_sym<uint64_t>("iv");
	size_t n = 17 + gs_choice_(3, "n"), cut = gs_choice_(4, "cut") * 4;
	auto m = gs_bytes(n, "msg");
	sinkFault([&](shared_ptr<const Sink> s) { return make_shared<g8::CFBSink>(s, k.key, iv); }, ref::cfb(k.ref, {iv}, m, true), m, cut);
}
ENTRY c21_fault_sink_magma()
{
	auto k = magKeyZ();
	auto ivl = gs_sym<uint64_t>("ivl"), ivr = gs_sym<uint64_t>("ivr");
	size_t n = 17 + gs_choice_(3, "n"), cut = gs_choice_(4, "cut") * 4;
	auto m = gs_bytes(n, "msg");
	sinkFault([&](shared_ptr<const Sink> s) { return make_shared<mg::CFBSink>(s, k.key, ivl, ivr); }, ref::cfb(k.ref, {ivl, ivr}, m, true), m, cut);
}
ENTRY c21_fault_sink_ecb()
{
	auto k = magKeyZ();
	size_t n = 16 + 8 * gs_choice_(2, "n"), cut = gs_choice_(3, "cut") * 8;
	auto m = gs_bytes(n, "msg");
	sinkFault([&](shared_ptr<const Sink> s) { return make_shared<mg::ECBSink>(s, k.key); }, ref::ecb(k.ref, m, true), m, cut);
}
template<class MK> static void sourceFault(MK mk, const Bytes &want, const Bytes &c, size_t sz)
{
	auto fuse = make_shared<int>(gs_choice_(5, "failAt"));
	shared_ptr<const Source> s = mk(make_shared<FlakySource>(c, 0, fuse));
	Bytes out;
	int failures = 0;
	for (int guard = 0; guard < 40; guard++) {
		try {
			auto r = s->read(sz);
			if (r.first.empty()) break;
			out = cat(out, fromS(r.first));
			s = r.second;
		} catch (const runtime_error &) {
			failures++;
		}
	}
	gs_assert(failures == (*fuse < 0), "a failure below is reported once, and no other");
	assertBytes(out, want, "retrying the failed call gives the right plaintext");
	gs_reach("end");
}
ENTRY c21_fault_source_gost89()
{
	auto k = magKeyZ();
	auto iv = gs_sym<uint64_t>("iv");
	size_t n = 15 + gs_choice_(3, "n"), sz = 3 + gs_choice_(3, "sz") * 5;
	auto c = gs_bytes(n, "ct");
	sourceFault([&](shared_ptr<const Source> s) { return make_shared<g8::CFBSource>(s, k.key, iv); }, ref::cfb(k.ref, {iv}, c, false), c, sz);
}
ENTRY c21_fault_source_magma()
{
	auto k = magKeyZ();
	auto ivl = gs_sym<uint64_t>("ivl"), ivr = gs_sym<uint64_t>("ivr");
	size_t n = 15 + gs_choice_(3, "n"), sz = 3 + gs_choice_(3, "sz") * 5;
	auto c = gs_bytes(n, "ct");
	sourceFault([&](shared_ptr<const Source> s) { return make_shared<mg::CFBSource>(s, k.key, ivl, ivr); }, ref::cfb(k.ref, {ivl, ivr}, c, false), c, sz);
}
ENTRY c21_fault_source_ecb()
{
	auto k = magKeyZ();
	auto c = gs_bytes(24, "ct");
	sourceFault([&](shared_ptr<const Source> s) { return make_shared<mg::ECBSource>(s, k.key); }, ref::ecb(k.ref, c, false), c, 8);
}
ENTRY c21_fault_mac()
{
	auto k = magKeyZ();
	auto m = gs_bytes(16, "msg");
	int at = gs_choice_(4, "failAt");
	auto fuse = make_shared<int>(at);
	mg::Imit im(make_shared<FlakySource>(m, 0, fuse), k.key);
	bool failed = refuses([&]() { im.value(); });
	gs_assert(failed == (*fuse < 0), "a failure of the source is reported");
	*fuse = 100;
	gs_assert_eq(num(im.value()), ref::magMac(k.ref, m), "MAC after a failure");
	gs_reach("end");
}
