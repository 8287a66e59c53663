// Objects do not influence each other: what one object yields does not depend on which others, with other
// keys, tables, initial values and data, were used before it or are used in between, kept or released.
#include "common.h"
#include <goost/gost89/CFBSink.h>
#include <goost/gost89/CFBSource.h>
#include <goost/gost89/DataImit.h>
#include <goost/gost89/ImitedBlock.h>
#include <goost/kuznyechik/BlkEncrypted.h>
#include <goost/kuznyechik/BlkCached.h>
#include <goost/kuznyechik/BlkIncremented.h>
#include <goost/kuznyechik/BlkIterKey.h>
#include <goost/kuznyechik/BlkL.h>
#include <goost/kuznyechik/BlkR.h>
#include <goost/kuznyechik/BlkS.h>
#include <goost/kuznyechik/BlkShifted.h>
#include <goost/kuznyechik/BlkString.h>
#include <goost/kuznyechik/BlkXored.h>
#include <goost/kuznyechik/Imit.h>
#include <goost/kuznyechik/Iterator.h>
#include <goost/kuznyechik/KeyDataString.h>
#include <goost/kuznyechik/StCTREncrypted.h>
#include <goost/kuznyechik/StMemory.h>
#include <goost/kuznyechik/Stream.h>
#include <goost/magma/BlkBackwarded.h>
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/BlkForwarded.h>
#include <goost/magma/BlkRaw.h>
#include <goost/magma/BlkShifted.h>
#include <goost/magma/BlkString.h>
#include <goost/magma/BlkSwapped.h>
#include <goost/magma/BlkXored.h>
#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
#include <goost/magma/Container.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>
#include <goost/magma/EncryptionBase.h>
#include <goost/magma/Imit.h>
#include <goost/magma/Key.h>
#include <goost/magma/KeyCachedData.h>
#include <goost/magma/KeyDataNative.h>
#include <goost/magma/KeyDataString.h>
#include <goost/magma/SboxR3412.h>
using namespace goost;
using namespace std;
namespace kz = goost::kuznyechik;
namespace mg = goost::magma;
namespace g8 = goost::gost89;
using ref::B128;

static const B128 A1{0x0011223344556677ull, 0x8899aabbccddeeffull}, A2{0x0123456789abcdefull, 0xfedcba9876543210ull};
static const B128 Z1{0x0f1e2d3c4b5a6978ull, 0x8796a5b4c3d2e1f0ull}, Z2{0x1032547698badcfeull, 0xefcdab8967452301ull};
static shared_ptr<const kz::Key> kuz(B128 a, B128 b) { return make_shared<kz::Key>(make_shared<RawKeyData>(a, b)); }
// of two objects the first is kept or released before the second is made
static bool kept()
{
	bool k = gs_choice_(2, "kept");
	gs_reuse(!k);
	return k;
}

// ------------------------------------------------------------------ 128-bit cipher
ENTRY c01_again()
{
	auto k1 = symB("k1"), k2 = symB("k2"), x = symB("x");
	bool keep = kept();
	auto fixed = kuz(A1, A2);
	assertB(fixed->encrypt(blk(Z1))->value(), ref::Kuz(A1, A2).E(Z1), "encryption under one key");
	if (!keep) fixed.reset();
	auto key = kuz(k1, k2);
	assertB(key->encrypt(blk(x))->value(), ref::Kuz(k1, k2).E(x), "encryption under another key after the first");
	auto third = kuz(A1, Z2);	// shares a half with the first
	assertB(third->encrypt(blk(Z1))->value(), ref::Kuz(A1, Z2).E(Z1), "encryption under a third key");
	if (keep) assertB(kz::BlkEncrypted(blk(x), fixed).value(), ref::Kuz(A1, A2).E(x), "the first key is still the first key");
	gs_reach("end");
}
ENTRY c02_again()
{
	auto x = symB("x"), y = symB("y");
	for (auto v : {A1, x, Z1, y, A1}) {
		assertB(kz::BlkS(blk(v)).value(), ref::S(v), "S of several blocks");
		assertB(kz::BlkR(blk(v)).value(), ref::R(v), "R of several blocks");
		assertB(kz::BlkL(blk(v)).value(), ref::L(v), "L of several blocks");
		assertB(kz::BlkXored(blk(v), blk(Z2)).value(), v ^ Z2, "xor of several blocks");
		unsigned __int128 n = (unsigned __int128)v.hi << 64 | v.lo;
		unsigned __int128 i = n + 1, s = n << 1;
		assertB(kz::BlkIncremented(blk(v)).value(), {uint64_t(i), uint64_t(i >> 64)}, "increment of several blocks");
		assertB(kz::BlkShifted(blk(v), 1).value(), {uint64_t(s), uint64_t(s >> 64)}, "shift of several blocks");
	}
	gs_reach("end");
}
static void ctrStep(shared_ptr<const kz::Iterator> &it, const ref::Kuz &k, uint64_t iv, uint64_t i, B128 d, const char *msg)
{
	gs_assert(bool(it), msg);
	assertB(it->value(), d ^ k.E({i, iv}), msg);
	it = it->next();
}
ENTRY c03_again()
{
	uint64_t w[8];
	gs_symbolic(w, sizeof w, "data");
	vector<uint64_t> d1(w, w + 4), d2(w + 4, w + 8);
	auto iv = gs_sym<uint64_t>("iv");
	ref::Kuz ra(A1, A2), rz(Z1, Z2);
	auto ka = kuz(A1, A2);
	bool keep = kept();
	auto a = kz::StCTREncrypted(make_shared<kz::StMemory>(d1), ka, 7).iter();
	ctrStep(a, ra, 7, 0, {w[0], w[1]}, "first stream");
	if (!keep) ka.reset();
	auto b = kz::StCTREncrypted(make_shared<kz::StMemory>(d2), kuz(Z1, Z2), iv).iter();
	ctrStep(b, rz, iv, 0, {w[4], w[5]}, "second stream with another key after the first began");
	ctrStep(a, ra, 7, 1, {w[2], w[3]}, "first stream goes on");
	ctrStep(b, rz, iv, 1, {w[6], w[7]}, "second stream goes on");
	gs_assert(!a, "first stream ends");
	gs_assert(!b, "second stream ends");
	if (keep) {
		auto c = kz::StCTREncrypted(make_shared<kz::StMemory>(d2), ka, iv).iter();
		ctrStep(c, ra, iv, 0, {w[4], w[5]}, "third stream, with the first key and another nonce");
		ctrStep(c, ra, iv, 1, {w[6], w[7]}, "third stream, with the first key and another nonce");
	}
	gs_reach("end");
}
ENTRY c04_again()
{
	uint64_t w[4];
	gs_symbolic(w, sizeof w, "data");
	bool keep = kept();
	auto ka = kuz(A1, A2);
	auto one = [](initializer_list<uint64_t> l) { return make_shared<kz::StMemory>(vector<uint64_t>(l)); };
	ref::Kuz ra(A1, A2), rz(Z1, Z2);
	auto m = make_shared<kz::Imit>(one({w[0], w[1]}), ka);
	assertB(m->value(), ref::kuzMac(ra, {{w[0], w[1]}}), "MAC of one message");
	if (!keep) {
		ka.reset();
		m.reset();
	}
	assertB(kz::Imit(one({w[0], w[1], w[2], w[3]}), kuz(Z1, Z2)).value(), ref::kuzMac(rz, {{w[0], w[1]}, {w[2], w[3]}}), "MAC of another message under another key");
	if (keep) {
		assertB(kz::Imit(one({w[2], w[3], w[0]}), ka).value(), ref::kuzMac(ra, {{w[2], w[3]}, {w[0], 0}}, false), "MAC of a short block under the first key");
		assertB(kz::Imit(one({w[2], w[3]}), ka).value(), ref::kuzMac(ra, {{w[2], w[3]}}), "MAC of a further message under the first key");
		assertB(m->value(), ref::kuzMac(ra, {{w[0], w[1]}}), "MAC of the first message, again");
	}
	gs_reach("end");
}
static string symHex(size_t n, const char *name, vector<unsigned> &val)
{
	auto raw = gs_bytes(n, name);
	string s;
	val.resize(n);
	for (size_t i = 0; i < n; i++) s.push_back(hexDigit(raw[i], val[i]));
	return s;
}
static uint64_t number(const vector<unsigned> &val, size_t from, size_t to)
{
	uint64_t r = 0;
	for (size_t i = from; i < to && i < val.size(); i++) r |= uint64_t(val[val.size() - 1 - i]) << (4 * (i - from));
	return r;
}
static string fixedHex(size_t n)
{
	string s;
	for (size_t i = 0; i < n; i++) s.push_back("0123456789abcdefABCDEF"[(5 * i + 3) % 22]);
	return s;
}
// the first and the last four digits of the text are arbitrary
static string someHex(size_t n, vector<unsigned> &val)
{
	auto s = fixedHex(n), t = symHex(8, "text", val);
	vector<unsigned> all;
	for (size_t i = 0; i < n; i++) {
		if (i < 4) s[i] = t[i];
		else if (i + 4 >= n) s[i] = t[i + 8 - n];
		else {
			s[i] = "fedcba9876543210"[i * 7 % 16];
			all.push_back(15 - i * 7 % 16);
			continue;
		}
		all.push_back(val[i < 4 ? i : i + 8 - n]);
	}
	val = all;
	return s;
}
ENTRY c05_again_blocks()
{
	bool keep = kept();
	vector<unsigned> v;
	auto ba = make_unique<kz::BlkString>(fixedHex(32));
	auto first = ba->value();
	auto ma = make_unique<mg::BlkString>(fixedHex(16));
	auto mfirst = ma->value();
	if (!keep) {
		ba.reset();
		ma.reset();
	}
	auto s = someHex(32, v);
	assertB(kz::BlkString(s).value(), {number(v, 0, 16), number(v, 16, 32)}, "a text after another text");
	auto m = s.substr(0, 4) + s.substr(8, 8) + s.substr(28);
	auto w = v;
	w.erase(w.begin() + 16, w.begin() + 28);
	w.erase(w.begin() + 4, w.begin() + 8);
	gs_assert_eq(num(mg::BlkString(m).value()), number(w, 0, 16), "a text after another text");
	if (keep) {
		assertB(ba->value(), {first.first, first.second}, "the first text is still the first text");
		gs_assert_eq(num(ma->value()), num(mfirst), "the first text is still the first text");
	}
	gs_reach("end");
}
ENTRY c05_again_keys()
{
	bool keep = kept();
	auto ka = make_unique<mg::KeyDataString>(fixedHex(64));
	auto kfirst = ka->key(0);
	auto kk = make_unique<kz::KeyDataString>(fixedHex(64));
	auto kkfirst = kk->high()->value();
	if (!keep) {
		ka.reset();
		kk.reset();
	}
	vector<unsigned> k;
	auto kt = someHex(64, k);
	mg::KeyDataString ks(kt);
	for (int i = 7; i >= 0; i--) gs_assert_eq(ks.key(i), number(k, 8 * (7 - i), 8 * (8 - i)), "a key text after another");
	assertB(kz::KeyDataString(kt).high()->value(), {number(k, 32, 48), number(k, 48, 64)}, "a key text after another");
	assertB(kz::KeyDataString(kt).low()->value(), {number(k, 0, 16), number(k, 16, 32)}, "a key text after another");
	if (keep) {
		gs_assert_eq(ka->key(0), kfirst, "the first key text is still the first");
		assertB(kk->high()->value(), {kkfirst.first, kkfirst.second}, "the first key text is still the first");
	}
	gs_reach("end");
}
ENTRY c06_again()
{
	uint64_t w[9];
	gs_symbolic(w, sizeof w, "words");
	bool keep = kept();
	auto st = make_shared<kz::StMemory>(vector<uint64_t>(w, w + 4));
	auto a = st->iter(), a0 = a;
	assertB(a->value(), {w[0], w[1]}, "first stream");
	if (!keep) st.reset();
	auto b = make_shared<kz::StMemory>(vector<uint64_t>(w + 4, w + 9))->iter(), b0 = b;
	assertB(b->value(), {w[4], w[5]}, "second stream after the first began");
	a = a->next();
	b = b->next();
	assertB(b->value(), {w[6], w[7]}, "second stream goes on");
	assertB(a->value(), {w[2], w[3]}, "first stream goes on");
	gs_assert(a->last(), "first stream ends");
	gs_assert(!b->last(), "second stream does not end yet");
	b = b->next();
	assertB(b->value(), {w[8], 0}, "second stream ends");
	gs_assert(b->last() & !a->next(), "the ends");
	assertB(a0->value(), {w[0], w[1]}, "iterators stay where they are");
	assertB(b0->next()->value(), {w[6], w[7]}, "iterators stay where they are");
	if (keep) assertB(st->iter()->value(), {w[0], w[1]}, "a stream can be read again");
	gs_reach("end");
}

// ------------------------------------------------------------------ 64-bit cipher
static MagKey otherKey()
{
	uint32_t w[8];
	uint8_t box[64];
	for (int i = 0; i < 8; i++) w[i] = 0x9e3779b9u * (i + 1);
	for (int i = 0; i < 64; i++) box[i] = uint8_t(i * 37 + 11);
	return magKeyFrom(w, box);
}
ENTRY c07_again()
{
	auto x = gs_sym<uint64_t>("x"), y = gs_sym<uint64_t>("y");
	bool keep = kept();
	auto a = otherKey();
	gs_assert_eq(num(mg::BlkEncrypted(make_shared<mg::BlkRaw>(x), a.key).value()), a.ref.E(x), "encryption under one key");
	gs_assert_eq(num(mg::BlkDecrypted(make_shared<mg::BlkRaw>(x), a.key).value()), a.ref.D(x), "decryption under one key");
	if (!keep) a.key.reset();
	auto k = magKey();
	gs_assert_eq(num(mg::BlkEncrypted(make_shared<mg::BlkRaw>(x), k.key).value()), k.ref.E(x), "encryption under another key and table");
	gs_assert_eq(mg::EncryptionBase(k.key).transform(y), k.ref.E(y), "encryption under another key and table");
	gs_assert_eq(num(mg::BlkDecrypted(make_shared<mg::BlkRaw>(x), k.key).value()), k.ref.D(x), "decryption under another key and table");
	if (keep) {
		gs_assert_eq(mg::EncryptionBase(a.key).transform(y), a.ref.E(y), "the first key is still the first key");
		gs_assert_eq(num(mg::BlkDecrypted(make_shared<mg::BlkRaw>(y), a.key).value()), a.ref.D(y), "the first key is still the first key");
	}
	gs_reach("end");
}
ENTRY c08_again()
{
	auto x = gs_sym<uint64_t>("x"), y = gs_sym<uint64_t>("y");
	auto a = otherKey(), k = magKey();
	auto e = num(mg::BlkEncrypted(make_shared<mg::BlkRaw>(x), a.key).value());
	auto f = num(mg::BlkEncrypted(make_shared<mg::BlkRaw>(y), k.key).value());
	gs_assert_eq(num(mg::BlkDecrypted(make_shared<mg::BlkRaw>(e), a.key).value()), x, "two keys in use: the first inverts");
	gs_assert_eq(num(mg::BlkDecrypted(make_shared<mg::BlkRaw>(f), k.key).value()), y, "two keys in use: the second inverts");
	gs_reach("end");
}
ENTRY c09_again()
{
	auto x = gs_sym<uint32_t>("v");
	bool keep = kept();
	auto a = otherKey();
	auto abox = make_unique<mg::SboxByte>(a.box);
	gs_assert_eq(abox->transform(x), a.ref.t(x), "one table");
	if (!keep) {
		abox.reset();
		a.key.reset();
	}
	auto k = magKey();
	gs_assert_eq(mg::SboxByte(k.box).transform(x), k.ref.t(x), "another table");
	gs_assert_eq(mg::SboxTwisted(make_unique<mg::SboxByte>(k.box)).transform(x), k.ref.g(0, x), "another table, rotated");
	for (int t = 0; t < 2; t++) {
		vector<vector<int>> p(8);
		for (int i = 0; i < 8; i++) for (int j = 0; j < 16; j++) p[i].push_back((t ? k : a).ref.pi[i][j]);
		gs_assert_eq(mg::SboxNibble(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]).transform(x), (t ? k : a).ref.t(x), "nibble tables, one after the other");
	}
	gs_assert_eq(k.key->transform(x, 3), k.ref.g(k.words[3], x), "another key");
	gs_assert_eq(k.key->transform(x, 3), k.ref.g(k.words[3], x), "another key, again");
	gs_assert_eq(k.key->transform(x, 4), k.ref.g(k.words[4], x), "another key, next word");
	if (keep) {
		gs_assert_eq(abox->transform(x), a.ref.t(x), "the first table is still the first");
		gs_assert_eq(a.key->transform(x, 3), a.ref.g(a.words[3], x), "the first key is still the first");
	}
	auto p = gs_sym<uint64_t>("p"), q = gs_sym<uint64_t>("q");
	for (auto v : {uint64_t(0x0123456789abcdef), p, q}) {
		gs_assert_eq(num(mg::BlkXored(make_shared<mg::BlkRaw>(v), make_shared<mg::BlkRaw>(q)).value()), v ^ q, "xor of several blocks");
		gs_assert_eq(num(mg::BlkShifted(make_shared<mg::BlkRaw>(v), 1).value()), v << 1, "shift of several blocks");
		gs_assert_eq(num(mg::BlkSwapped(make_shared<mg::BlkRaw>(v)).value()), v << 32 | v >> 32, "swap of several blocks");
	}
	gs_reach("end");
}

// ------------------------------------------------------------------ modes over two arbitrary round functions
class TheKey final : public mg::Key {
public:
	explicit TheKey(const char *name) : name(name) {}
	uint32_t transform(uint32_t v, int i) const override
	{
		uint64_t in[2] = {uint64_t(i), v}, out;
		gs_uf(name, in, 2, &out, 1);
		return uint32_t(out);
	}
private:
	const char *const name;
};
struct RefTheKey : ref::Feistel<RefTheKey> {
	explicit RefTheKey(const char *name) : name(name) {}
	uint32_t round(int i, uint32_t v) const
	{
		uint64_t in[2] = {uint64_t(i), v}, out;
		gs_uf(name, in, 2, &out, 1);
		return uint32_t(out);
	}
	const char *const name;
};
class TheSbox final : public mg::Sbox {
public:
	explicit TheSbox(const char *name) : name(name) {}
	uint32_t transform(uint32_t v) const override
	{
		uint64_t in = v, out;
		gs_uf(name, &in, 1, &out, 1);
		return uint32_t(out);
	}
private:
	const char *const name;
};
struct RefLazy : ref::Feistel<RefLazy> {
	explicit RefLazy(const char *name, uint32_t base) : name(name), base(base) {}
	uint32_t round(int i, uint32_t v) const
	{
		uint64_t in = uint32_t(v + base * uint32_t(i + 1)), out;
		gs_uf(name, &in, 1, &out, 1);
		return uint32_t(out);
	}
	const char *const name;
	const uint32_t base;
};
static shared_ptr<const mg::LazyKey> lazy(const char *name, uint32_t base)
{
	vector<uint32_t> w;
	for (uint32_t i = 0; i < 8; i++) w.push_back(base * (i + 1));
	return make_shared<mg::LazyKey>(w, make_shared<TheSbox>(name));
}
static Bytes part(const Bytes &b, size_t from, size_t to) { return Bytes(b.begin() + from, b.begin() + to); }
static vector<uint64_t> ivs(size_t n, const char *name)
{
	vector<uint64_t> r(n);
	if (n) gs_symbolic(r.data(), n * 8, name);
	return r;
}
// two sinks and then a third, written in turns
template<class R, class K, class MK, class W> static void sinks(R ra, R rb, K ka, K kb, size_t regs, MK mk, W want)
{
	bool keep = kept();
	auto iva = ivs(regs, "iva"), ivb = ivs(regs, "ivb");
	auto ma = gs_bytes(24, "ma"), mb = gs_bytes(24, "mb");
	shared_ptr<const Sink> a = mk(make_shared<CollectSink>(), ka, iva), a0 = a, a1;
	a = a1 = a->write(toS(part(ma, 0, 8)));
	if (!keep) a0.reset();
	shared_ptr<const Sink> b = mk(make_shared<CollectSink>(), kb, ivb);
	b = b->write(toS(part(mb, 0, 16)));
	a = a->write(toS(part(ma, 8, 24)));
	b = b->write(toS(part(mb, 16, 24)));
	assertBytes(collected(b->finalize()), want(rb, ivb, mb), "second of two sinks in use");
	assertBytes(collected(a->finalize()), want(ra, iva, ma), "first of two sinks in use");
	if (keep) {
		a = mk(make_shared<CollectSink>(), ka, ivb);
		assertBytes(collected(a->write(toS(mb))->finalize()), want(ra, ivb, mb), "the first key again, with another initial value");
		assertBytes(collected(a1->finalize()), want(ra, iva, part(ma, 0, 8)), "an earlier state of the first sink");
	}
	gs_reach("end");
}
template<class R, class K, class MK, class W> static void sources(R ra, R rb, K ka, K kb, size_t regs, MK mk, W want)
{
	bool keep = kept();
	auto iva = ivs(regs, "iva"), ivb = ivs(regs, "ivb");
	auto ma = gs_bytes(24, "ma"), mb = gs_bytes(24, "mb");
	Bytes oa, ob;
	shared_ptr<const Source> a = mk(make_shared<VecSource>(ma), ka, iva), a0 = a, b;
	auto rd = [](shared_ptr<const Source> &s, size_t n, Bytes &out) {
		while (n) {	// a read may yield less than it was asked for
			auto r = s->read(n);
			auto d = fromS(r.first);
			if (d.empty() || d.size() > n) {
				gs_fail("a source in use yields too little or too much");
				return;
			}
			out.insert(out.end(), d.begin(), d.end());
			s = r.second;
			n -= d.size();
		}
	};
	rd(a, 8, oa);
	if (!keep) a0.reset();
	b = mk(make_shared<VecSource>(mb), kb, ivb);
	rd(b, 16, ob);
	rd(a, 16, oa);
	rd(b, 8, ob);
	assertBytes(ob, want(rb, ivb, mb), "second of two sources in use");
	assertBytes(oa, want(ra, iva, ma), "first of two sources in use");
	if (keep) {
		Bytes oc, od;
		a = mk(make_shared<VecSource>(mb), ka, ivb);
		rd(a, 24, oc);
		assertBytes(oc, want(ra, ivb, mb), "the first key again, with another initial value");
		rd(a0, 24, od);
		assertBytes(od, want(ra, iva, ma), "an earlier state of the first source");
	}
	gs_reach("end");
}
typedef shared_ptr<const mg::Key> KeyP;
typedef vector<uint64_t> Iv;
static const char *const RA = "ra", *const RB = "rb";
#define TWO RefTheKey(RA), RefTheKey(RB), KeyP(make_shared<TheKey>(RA)), KeyP(make_shared<TheKey>(RB))
ENTRY c10_again_sink()
{
	sinks(TWO, 0, [](shared_ptr<const Sink> s, KeyP k, Iv) { return make_shared<mg::ECBSink>(s, k); },
		[](RefTheKey r, Iv, const Bytes &m) { return ref::ecb(r, m, true); });
}
ENTRY c10_again_source()
{
	sources(TWO, 0, [](shared_ptr<const Source> s, KeyP k, Iv) { return make_shared<mg::ECBSource>(s, k); },
		[](RefTheKey r, Iv, const Bytes &m) { return ref::ecb(r, m, false); });
}
ENTRY c11_again()
{
	sinks(TWO, 1, [](shared_ptr<const Sink> s, KeyP k, Iv v) { return make_shared<g8::CFBSink>(s, k, v[0]); },
		[](RefTheKey r, Iv v, const Bytes &m) { return ref::cfb(r, v, m, true); });
}
ENTRY c12_again()
{
	sources(TWO, 1, [](shared_ptr<const Source> s, KeyP k, Iv v) { return make_shared<g8::CFBSource>(s, k, v[0]); },
		[](RefTheKey r, Iv v, const Bytes &m) { return ref::cfb(r, v, m, false); });
}
ENTRY c13_again()
{
	sinks(TWO, 2, [](shared_ptr<const Sink> s, KeyP k, Iv v) { return make_shared<mg::CFBSink>(s, k, v[0], v[1]); },
		[](RefTheKey r, Iv v, const Bytes &m) { return ref::cfb(r, v, m, true); });
}
ENTRY c14_again()
{
	sources(TWO, 2, [](shared_ptr<const Source> s, KeyP k, Iv v) { return make_shared<mg::CFBSource>(s, k, v[0], v[1]); },
		[](RefTheKey r, Iv v, const Bytes &m) { return ref::cfb(r, v, m, false); });
}
// the MACs: two substitutions, and two keys over one substitution
template<class M, class W> static void macs(M mac, W want, const char *msg)
{
	bool keep = kept();
	auto ma = gs_bytes(24, "ma"), mb = gs_bytes(19, "mb");
	auto a = lazy("sa", 0x11111111);
	RefLazy ra("sa", 0x11111111), rb("sb", 0x01234567), rc("sa", 0x01234567);
	gs_assert_eq(mac(ma, a), want(ra, ma), msg);
	if (!keep) a.reset();
	gs_assert_eq(mac(mb, lazy("sb", 0x01234567)), want(rb, mb), msg);
	gs_assert_eq(mac(ma, lazy("sa", 0x01234567)), want(rc, ma), msg);
	if (keep) {
		gs_assert_eq(mac(mb, a), want(ra, mb), msg);
		gs_assert_eq(mac(ma, a), want(ra, ma), msg);
	}
	gs_reach("end");
}
ENTRY c15_again()
{
	macs([](const Bytes &m, shared_ptr<const mg::LazyKey> k) { return num(mg::Imit(make_shared<VecSource>(m), k).value()); },
		[](RefLazy r, const Bytes &m) { return ref::magMac(r, m); }, "MACs of several messages under several keys");
}
ENTRY c16_again()
{
	macs([](const Bytes &m, shared_ptr<const mg::LazyKey> k) { return ref::loadLE(g8::DataImit(m, k).value().data()); },
		[](RefLazy r, const Bytes &m) { return ref::gostImit(r, m); }, "imitation inserts of several messages under several keys");
}

// ------------------------------------------------------------------ key containers
class AnyContainer final : public mg::Container {
public:
	AnyContainer(const Bytes &k, const Bytes &s) : k(k), s(s) {}
	SBytes key() const override { return toS(k); }
	SBytes mask() const override { return toS(Bytes(32, 0)); }
	SBytes sbox() const override { return toS(s); }
private:
	const Bytes k, s;
};
static Bytes mix(size_t n, unsigned f)
{
	Bytes b(n);
	for (size_t i = 0; i < n; i++) b[i] = uint8_t(i * f + (i >> 3) + 7);
	return b;
}
ENTRY c17_again()
{
	bool keep = kept();
	auto kb = gs_bytes(32, "key"), sb = gs_bytes(64, "sbox"), ct = gs_bytes(16, "ct");
	auto kf = mix(32, 29), sf = mix(64, 101);
	auto refOf = [](const Bytes &k, const Bytes &s) {
		uint32_t w[8];
		for (int i = 0; i < 8; i++) w[i] = uint32_t(k[4 * i]) << 24 | uint32_t(k[4 * i + 1]) << 16 | uint32_t(k[4 * i + 2]) << 8 | k[4 * i + 3];
		return magKeyFrom(w, s.data()).ref;
	};
	auto src = [&](const Bytes &k, const Bytes &s) {
		return make_shared<mg::ECBSource>(make_shared<VecSource>(ct), static_pointer_cast<const mg::Container>(make_shared<AnyContainer>(k, s)));
	};
	auto a = src(kf, sf);
	assertBytes(drain(a, 8), ref::ecb(refOf(kf, sf), ct, false), "one container");
	if (!keep) a.reset();
	assertBytes(drain(src(kb, sf), 8), ref::ecb(refOf(kb, sf), ct, false), "a container with another key");
	assertBytes(drain(src(kb, sb), 8), ref::ecb(refOf(kb, sb), ct, false), "a container with another table");
	assertBytes(drain(src(kf, sb), 8), ref::ecb(refOf(kf, sb), ct, false), "a container with the first key and another table");
	if (keep) assertBytes(drain(a, 8), ref::ecb(refOf(kf, sf), ct, false), "the first container, again");
	gs_reach("end");
}
