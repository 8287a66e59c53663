// C20: whatever an object was given is its own. The caller overwrites and releases every argument of
// every constructor before the object is used.
#include "anykey.h"
#include <goost/gost89/CFBSink.h>
#include <goost/gost89/CFBSource.h>
#include <goost/gost89/DataImit.h>
#include <goost/gost89/ImitedBlock.h>
#include <goost/kuznyechik/BlkCached.h>
#include <goost/kuznyechik/BlkEncrypted.h>
#include <goost/kuznyechik/BlkIncremented.h>
#include <goost/kuznyechik/BlkIterKey.h>
#include <goost/kuznyechik/BlkL.h>
#include <goost/kuznyechik/BlkR.h>
#include <goost/kuznyechik/BlkS.h>
#include <goost/kuznyechik/BlkShifted.h>
#include <goost/kuznyechik/BlkString.h>
#include <goost/kuznyechik/BlkXored.h>
#include <goost/kuznyechik/Imit.h>
#include <goost/kuznyechik/Iterator.h>
#include <goost/kuznyechik/KeyDataString.h>
#include <goost/kuznyechik/StCTREncrypted.h>
#include <goost/kuznyechik/StMemory.h>
#include <goost/magma/BlkBackwarded.h>
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/BlkForwarded.h>
#include <goost/magma/BlkRaw.h>
#include <goost/magma/BlkShifted.h>
#include <goost/magma/BlkString.h>
#include <goost/magma/BlkSwapped.h>
#include <goost/magma/BlkXored.h>
#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
#include <goost/magma/Container.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>
#include <goost/magma/EncryptionBase.h>
#include <goost/magma/Imit.h>
#include <goost/magma/KeyCachedData.h>
#include <goost/magma/KeyDataNative.h>
#include <goost/magma/KeyDataString.h>
#include <goost/magma/SboxByte64Tab.h>
#include <goost/magma/SboxR3412.h>
using namespace goost;
using namespace std;
namespace kz = goost::kuznyechik;
namespace mg = goost::magma;
namespace g8 = goost::gost89;

// an argument in storage of its own, which is overwritten and given back
template <class T> class Lent {
public:
	Lent(T v) : p(make_unique<T>(std::move(v))) {}
	const T &operator*() const { return *p; }
	~Lent()
	{
		wipe(*p);
		p.reset();
	}
private:
	unique_ptr<T> p;
	template <class E> static void wipe(vector<E> &v) { for (auto &e : v) e = E(~0u & 1); }
	static void wipe(string &s) { for (auto &c : s) c = '5'; }
	template <class E> static void wipe(shared_ptr<E> &s) { s.reset(); }
	template <class E> static void wipe(pair<E, E> &v) { v = {1, 1}; }
	static void wipe(mg::BlkRaw &) {}
};
template <class T> Lent<T> lent(const T &v) { return Lent<T>(v); }
// how an object is made: as it is, or as a copy of one that was used or not, and then released
struct Plain { template <class T, class... A> static shared_ptr<T> make(A &&... a) { return make_shared<T>(std::forward<A>(a)...); } };
static bool usedFirst;
template <class T, class = void> struct HasValue : false_type {};
template <class T> struct HasValue<T, void_t<decltype(declval<const T &>().value())>> : true_type {};
struct Copied {
	template <class T, class... A> static shared_ptr<T> make(A &&... a)
	{
		auto o = make_shared<T>(std::forward<A>(a)...);
		if constexpr (is_copy_constructible_v<T>) {
			if constexpr (HasValue<T>::value) if (usedFirst) o->value();
			auto c = make_shared<T>(*o);
			o.reset();
			return c;
		} else return o;
	}
};
typedef shared_ptr<const kz::Block> KB;
typedef shared_ptr<const mg::Block> MB;

static const char HEX[65] = "8899aabbccddeeff0011223344556677fedcba98765432100123456789abcdef";
static const ref::B128 RFC_K1{0x0011223344556677ull, 0x8899aabbccddeeffull}, RFC_K2{0x0123456789abcdefull, 0xfedcba9876543210ull};
static const uint32_t HEXW[8] = {0x8899aabb, 0xccddeeff, 0x00112233, 0x44556677, 0xfedcba98, 0x76543210, 0x01234567, 0x89abcdef};

// ------------------------------------------------ keys, substitutions, texts
ENTRY c20_lent_keydata()
{
	vector<uint32_t> w(8);
	gs_symbolic(w.data(), 32, "key");
	unique_ptr<mg::KeyData> n, s, c;
	{
		auto v = lent(w);
		auto t = lent(string(HEX));
		n = make_unique<mg::KeyDataNative>(*v);
		s = make_unique<mg::KeyDataString>(*t);
		c = make_unique<mg::KeyCachedData>(make_unique<mg::KeyDataNative>(*v));
	}
	uint32_t x[8];
	for (int i = 0; i < 8; i++) x[i] = n->key(i);
	for (int i = 0; i < 8; i++) {
		gs_assert_eq(c->key(i), x[i], "cached key words after the caller's vector is gone");
		gs_assert_eq(s->key(i), mg::KeyDataString(HEX).key(i), "key words after the caller's text is gone");
	}
	auto fresh = mg::KeyDataNative(w);
	for (int i = 0; i < 8; i++) gs_assert_eq(x[i], fresh.key(i), "key words after the caller's vector is gone");
	gs_reach("end");
}
ENTRY c20_lent_keys()
{
	auto k = magKey();
	auto x = gs_sym<uint32_t>("x");
	shared_ptr<const mg::Key> a, b, c, d;
	{
		auto v = lent(k.words);
		auto box = lent(k.box);
		auto t = lent(string(HEX));
		auto sb = lent(shared_ptr<const mg::Sbox>(make_shared<mg::SboxTwisted>(make_unique<mg::SboxByte>(*box))));
		a = make_shared<mg::LazyKey>(*v, *sb);
		b = make_shared<mg::LazyKey>(*t, *sb);
		c = make_shared<mg::LazyKey>(*t);
		d = make_shared<mg::LazyKey>(make_unique<mg::KeyDataNative>(*v), *sb);
	}
	ref::Mag hb = k.ref, hc;
	for (int i = 0; i < 8; i++) hb.k[i] = hc.k[i] = HEXW[i];
	memcpy(hc.pi, ref::PARAMZ, sizeof hc.pi);
	for (int i = 0; i < 8; i++) {
		gs_assert_eq(a->transform(x, i), k.ref.g(k.words[i], x), "key from words that are gone");
		gs_assert_eq(b->transform(x, i), k.ref.g(hb.k[i], x), "key from a text and a substitution that are gone");
		gs_assert_eq(c->transform(x, i), hc.g(hc.k[i], x), "key from a text that is gone");
		gs_assert_eq(d->transform(x, i), a->transform(x, i), "key from a key store");
	}
	gs_reach("end");
}
ENTRY c20_lent_sbox()
{
	auto k = magKey();
	auto x = gs_sym<uint32_t>("x");
	unique_ptr<mg::Sbox> n, b, t;
	vector<vector<int>> p(8, vector<int>(16));
	for (int i = 0; i < 8; i++) for (int j = 0; j < 16; j++) p[i][j] = k.ref.pi[i][j];
	{
		auto box = lent(k.box);
		auto p0 = lent(p[0]), p1 = lent(p[1]), p2 = lent(p[2]), p3 = lent(p[3]), p4 = lent(p[4]), p5 = lent(p[5]), p6 = lent(p[6]), p7 = lent(p[7]);
		n = make_unique<mg::SboxNibble>(*p0, *p1, *p2, *p3, *p4, *p5, *p6, *p7);
		b = make_unique<mg::SboxByte>(*box);
		t = make_unique<mg::SboxByte>(
			make_unique<mg::SboxByte64Tab>(*box, 0), make_unique<mg::SboxByte64Tab>(*box, 1),
			make_unique<mg::SboxByte64Tab>(*box, 2), make_unique<mg::SboxByte64Tab>(*box, 3));
	}
	gs_assert_eq(n->transform(x), k.ref.t(x), "nibble tables that are gone");
	gs_assert_eq(b->transform(x), k.ref.t(x), "byte tables that are gone");
	gs_assert_eq(t->transform(x), mg::SboxByte(k.box).transform(x), "tables built one by one that are gone");
	gs_reach("end");
}
ENTRY c20_lent_text()
{
	auto x = symB("x");
	unique_ptr<const kz::Key::Data> kd;
	unique_ptr<const kz::Key> key, key2;
	KB kb;
	MB mb;
	{
		auto t = lent(string(HEX));
		auto h = lent(string(HEX, 32)), q = lent(string(HEX, 16));
		kd = make_unique<kz::KeyDataString>(*t);
		key = make_unique<kz::Key>(*t);
		kb = make_shared<kz::BlkString>(*h);
		mb = make_shared<mg::BlkString>(*q);
		auto raw = lent(shared_ptr<const kz::Key::Data>(make_shared<RawKeyData>(RFC_K1, RFC_K2)));
		key2 = make_unique<kz::Key>(*raw);
	}
	assertB(kb->value(), RFC_K1, "block from a text that is gone");
	gs_assert_eq(num(mb->value()), RFC_K1.hi, "block from a text that is gone");
	assertB(kd->high()->value(), RFC_K1, "key half from a text that is gone");
	assertB(kd->low()->value(), RFC_K2, "key half from a text that is gone");
	const ref::Kuz r(RFC_K1, RFC_K2);
	const auto e = r.E(x);
	assertB(key->encrypt(blk(x))->value(), e, "key from a text that is gone");
	assertB(key2->encrypt(blk(x))->value(), e, "key from key data that are gone");
	gs_reach("end");
}

// ------------------------------------------------ blocks of the 128-bit cipher
static const size_t KUZ_BLOCKS = 14;
template <class M> static KB kuzBlock(size_t what, const KB &x, const KB &y, const KB &z, const shared_ptr<const kz::Key> &key)
{
	switch (what) {
	case 0: return M::template make<kz::BlkL>(x);
	case 1: return M::template make<kz::BlkR>(x);
	case 2: return M::template make<kz::BlkS>(x);
	case 3: return M::template make<kz::BlkXored>(x, y);
	case 4: return M::template make<kz::BlkXored>(x, y, z);
	case 5: return M::template make<kz::BlkXored>(x, y, z, x);
	case 6: return M::template make<kz::BlkShifted>(x, 1);
	case 7: return M::template make<kz::BlkIncremented>(x);
	case 8: return M::template make<kz::BlkIterKey>(x, y, 1, 3);
	case 9: return M::template make<kz::BlkCached>(x);
	case 10: return M::template make<kz::BlkEncrypted>(x, key);
	case 11: return M::template make<kz::BlkRaw>(x);
	case 12: return key->encrypt(x);
	default: return M::template make<kz::BlkXored>(M::template make<kz::BlkCached>(x), M::template make<kz::BlkS>(y));
	}
}
ENTRY c20_lent_kuz_blocks()
{
	size_t what = gs_choice_(KUZ_BLOCKS, "what");
	auto x = symB("x"), y = symB("y"), z = symB("z");
	auto key = make_shared<const kz::Key>(make_shared<RawKeyData>(RFC_K1, RFC_K2));
	KB b;
	{
		auto lx = lent(KB(blk(x))), ly = lent(KB(blk(y))), lz = lent(KB(blk(z)));
		auto lk = lent(shared_ptr<const kz::Key>(make_shared<kz::Key>(make_shared<RawKeyData>(RFC_K1, RFC_K2))));
		b = kuzBlock<Plain>(what, *lx, *ly, *lz, *lk);
	}
	// the same over operands that are still there
	auto w = kuzBlock<Plain>(what, blk(x), blk(y), blk(z), key)->value();
	assertB(b->value(), {w.first, w.second}, "block after what it was made of is gone");
	gs_reach("end");
}
ENTRY c20_lent_kuz_streams()
{
	size_t n = gs_choice_(5, "words"), what = gs_choice_(3, "what");
	vector<uint64_t> w(n);
	if (n) gs_symbolic(w.data(), 8 * n, "words");
	auto iv = gs_sym<uint64_t>("iv");
	auto key = make_shared<const kz::Key>(make_shared<RawKeyData>(RFC_K1, RFC_K2));
	auto all = [](shared_ptr<const kz::Iterator> it) {
		vector<pair<uint64_t, uint64_t>> r;
		while (it) {
			r.push_back(it->value());
			it = it->next();
		}
		return r;
	};
	typedef shared_ptr<const kz::Stream> St;
	vector<pair<uint64_t, uint64_t>> got, want;
	if (what == 2) {
		if (!n) { gs_reach("end"); return; }
		shared_ptr<const kz::Block> mac;
		{
			auto lw = lent(w);
			auto ls = lent(St(make_shared<kz::StMemory>(*lw)));
			auto lk = lent(shared_ptr<const kz::Key>(make_shared<kz::Key>(make_shared<RawKeyData>(RFC_K1, RFC_K2))));
			mac = make_shared<kz::Imit>(*ls, *lk);
		}
		got.push_back(mac->value());
		want.push_back(kz::Imit(make_shared<kz::StMemory>(w), key).value());
	} else {
		shared_ptr<const kz::Iterator> it;
		{
			auto lw = lent(w);
			auto ls = lent(St(make_shared<kz::StMemory>(*lw)));
			auto lk = lent(shared_ptr<const kz::Key>(make_shared<kz::Key>(make_shared<RawKeyData>(RFC_K1, RFC_K2))));
			it = what ? kz::StCTREncrypted(*ls, *lk, iv).iter() : (*ls)->iter();
		}
		got = all(it);
		auto st = make_shared<kz::StMemory>(w);
		want = all(what ? kz::StCTREncrypted(st, key, iv).iter() : st->iter());
	}
	gs_assert_eq(got.size(), want.size(), "number of blocks after stream and key are gone");
	for (size_t i = 0; i < got.size() && i < want.size(); i++) assertB(got[i], {want[i].first, want[i].second}, "block of a stream after stream and key are gone");
	gs_reach("end");
}

// ------------------------------------------------ blocks and modes of the 64-bit cipher
static const size_t MAG_BLOCKS = 11;
template <class M> static MB magBlock(size_t what, const MB &x, const MB &y, const MB &z, const shared_ptr<const mg::Key> &key)
{
	switch (what) {
	case 0: return M::template make<mg::BlkForwarded>(x, key);
	case 1: return M::template make<mg::BlkBackwarded>(x, key);
	case 2: return M::template make<mg::BlkEncrypted>(x, key);
	case 3: return M::template make<mg::BlkDecrypted>(x, key);
	case 4: return M::template make<mg::BlkSwapped>(x);
	case 5: return M::template make<mg::BlkShifted>(x, 1);
	case 6: return M::template make<mg::BlkXored>(x, y);
	case 7: return M::template make<mg::BlkXored>(x, y, z);
	case 8: return M::template make<mg::BlkXored>(x, y, z, x);
	case 9: return M::template make<mg::BlkRaw>(x->value());
	default: return M::template make<mg::BlkXored>(M::template make<mg::BlkSwapped>(x), M::template make<mg::BlkEncrypted>(y, key));
	}
}
ENTRY c20_lent_mag_blocks()
{
	size_t what = gs_choice_(MAG_BLOCKS, "what");
	auto x = gs_sym<uint64_t>("x"), y = gs_sym<uint64_t>("y"), z = gs_sym<uint64_t>("z");
	MB b;
	{
		auto lx = lent(MB(make_shared<mg::BlkRaw>(x))), ly = lent(MB(make_shared<mg::BlkRaw>(y))), lz = lent(MB(make_shared<mg::BlkRaw>(z)));
		auto lk = lent(shared_ptr<const mg::Key>(make_shared<AnyKey>()));
		b = magBlock<Plain>(what, *lx, *ly, *lz, *lk);
	}
	auto w = magBlock<Plain>(what, make_shared<mg::BlkRaw>(x), make_shared<mg::BlkRaw>(y), make_shared<mg::BlkRaw>(z), make_shared<AnyKey>());
	gs_assert_eq(num(b->value()), num(w->value()), "block after what it was made of is gone");
	gs_reach("end");
}
ENTRY c20_lent_mag_raw()
{
	auto x = gs_sym<uint64_t>("x");
	MB a, b, c;
	uint64_t e;
	{
		vector<uint8_t> v(8);
		memcpy(v.data(), &x, 8);
		auto l = lent(v);
		auto p = lent(pair<uint32_t, uint32_t>(uint32_t(x), uint32_t(x >> 32)));
		a = make_shared<mg::BlkRaw>(*l);
		b = make_shared<mg::BlkRaw>((*l).data());
		c = make_shared<mg::BlkRaw>(*p);
	}
	gs_assert_eq(num(a->value()), x, "block from bytes that are gone");
	gs_assert_eq(num(b->value()), x, "block from memory that is gone");
	gs_assert_eq(num(c->value()), x, "block from a pair that is gone");
	{
		unique_ptr<mg::EncryptionBase> eb;
		{
			auto lk = lent(shared_ptr<const mg::Key>(make_shared<AnyKey>()));
			eb = make_unique<mg::EncryptionBase>(*lk);
		}
		e = eb->transform(x);
	}
	gs_assert_eq(e, mg::EncryptionBase(make_shared<AnyKey>()).transform(x), "cipher after its key is dropped");
	gs_reach("end");
}
ENTRY c20_lent_sinks()
{
	auto iv = gs_sym<uint64_t>("iv"), iv2 = gs_sym<uint64_t>("iv2");
	size_t n = gs_choice_(13, "len"), np = gs_choice_(8, "plain"), what = gs_choice_(5, "what");
	auto m = gs_bytes(n, "msg"), pl = gs_bytes(np, "plain");
	if (what == 4 || what == 0 || what == 2) gs_assume(np == 0);
	if (what == 4) gs_assume(n % 8 == 0);
	RefAnyKey r;
	Bytes all;
	for (auto c : pl) all.push_back(c);
	for (auto c : m) all.push_back(c);
	shared_ptr<const Sink> s;
	{
		auto below = lent(shared_ptr<const Sink>(make_shared<CollectSink>()));
		auto k = lent(shared_ptr<const mg::Key>(make_shared<AnyKey>()));
		auto p = lent(toS(pl));
		auto d = lent(toS(m));
		if (what == 0) s = make_shared<g8::CFBSink>(*below, *k, iv);
		if (what == 1) s = make_shared<g8::CFBSink>(*below, *k, iv, *p);
		if (what == 2) s = make_shared<mg::CFBSink>(*below, *k, iv, iv2);
		if (what == 3) s = make_shared<mg::CFBSink>(*below, *k, iv, iv2, *p);
		if (what == 4) s = make_shared<mg::ECBSink>(*below, *k);
		s = s->write(*d);
	}
	s = s->finalize();
	if (what < 2) assertBytes(collected(s), ref::cfb(r, {iv}, all, true), "sink after everything it was given is gone");
	else if (what < 4) assertBytes(collected(s), ref::cfb(r, {iv, iv2}, all, true), "sink after everything it was given is gone");
	else {
		auto o = collected(s);
		gs_assert_eq(o.size(), n, "every block arrives");
		for (size_t i = 0; i + 8 <= n && i + 8 <= o.size(); i += 8)
			gs_assert_eq(ref::loadLE(&o[i]), r.E(ref::loadLE(&m[i])), "sink after everything it was given is gone");
	}
	gs_reach("end");
}
ENTRY c20_lent_sources()
{
	auto iv = gs_sym<uint64_t>("iv"), iv2 = gs_sym<uint64_t>("iv2");
	size_t n = gs_choice_(13, "len"), what = gs_choice_(3, "what");
	auto c = gs_bytes(n, "ct");
	if (what == 2) gs_assume(n % 8 == 0);
	RefAnyKey r;
	shared_ptr<const Source> s;
	{
		auto below = lent(shared_ptr<const Source>(make_shared<VecSource>(c)));
		auto k = lent(shared_ptr<const mg::Key>(make_shared<AnyKey>()));
		if (what == 0) s = make_shared<g8::CFBSource>(*below, *k, iv);
		if (what == 1) s = make_shared<mg::CFBSource>(*below, *k, iv, iv2);
		if (what == 2) s = make_shared<mg::ECBSource>(*below, *k);
	}
	auto o = drain(s, what == 2 ? 8 : 3);
	if (what == 0) assertBytes(o, ref::cfb(r, {iv}, c, false), "source after everything it was given is gone");
	if (what == 1) assertBytes(o, ref::cfb(r, {iv, iv2}, c, false), "source after everything it was given is gone");
	if (what == 2) {
		gs_assert_eq(o.size(), n, "every block arrives");
		for (size_t i = 0; i + 8 <= n && i + 8 <= o.size(); i += 8)
			gs_assert_eq(ref::loadLE(&o[i]), r.D(ref::loadLE(&c[i])), "source after everything it was given is gone");
	}
	gs_reach("end");
}
// bytes already decrypted that a source is made with
ENTRY c20_lent_plain()
{
	auto iv = gs_sym<uint64_t>("iv"), iv2 = gs_sym<uint64_t>("iv2");
	size_t np = gs_choice_(8, "plain"), what = gs_choice_(2, "what");
	auto c = gs_bytes(9, "ct"), pl = gs_bytes(np, "plain");
	auto make = [&](const shared_ptr<const Source> &b, const shared_ptr<const mg::Key> &k, const vector<byte> &p) -> shared_ptr<const Source> {
		if (what) return make_shared<mg::CFBSource>(b, k, iv, iv2, p);
		return make_shared<g8::CFBSource>(b, k, iv, p);
	};
	shared_ptr<const Source> s;
	{
		auto below = lent(shared_ptr<const Source>(make_shared<VecSource>(c)));
		auto k = lent(shared_ptr<const mg::Key>(make_shared<AnyKey>()));
		auto p = lent(toS(pl));
		s = make(*below, *k, *p);
	}
	auto w = make(make_shared<VecSource>(c), make_shared<AnyKey>(), toS(pl));
	assertBytes(drain(s, 5), drain(w, 5), "source after the bytes it was made with are gone");
	gs_reach("end");
}
class LentContainer final : public mg::Container {
public:
	LentContainer(const Bytes &k, const Bytes &m, const Bytes &s) : k(toS(k)), m(toS(m)), s(toS(s)) {}
	vector<byte> key() const override { return k; }
	vector<byte> mask() const override { return m; }
	vector<byte> sbox() const override { return s; }
private:
	const vector<byte> k, m, s;
};
ENTRY c20_lent_container()
{
	auto k = gs_bytes(32, "key"), m = gs_bytes(32, "mask"), b = gs_bytes(64, "sbox"), c = gs_bytes(8, "ct");
	shared_ptr<const Source> s;
	{
		auto below = lent(shared_ptr<const Source>(make_shared<VecSource>(c)));
		auto box = lent(shared_ptr<const mg::Container>(make_shared<LentContainer>(k, m, b)));
		s = make_shared<mg::ECBSource>(*below, *box);
	}
	auto o = drain(s, 8);
	auto w = drain(make_shared<mg::ECBSource>(make_shared<VecSource>(c), make_shared<LentContainer>(k, m, b)), 8);
	assertBytes(o, w, "source after its container is gone");
	gs_reach("end");
}
ENTRY c20_lent_macs()
{
	size_t n = gs_choice_(18, "len"), what = gs_choice_(3, "what");
	auto d = gs_bytes(n, "msg");
	auto x = gs_sym<uint64_t>("x");
	typedef shared_ptr<const mg::LazyKey> LK;
	Bytes got, want;
	uint64_t g = 0, w = 0;
	if (what == 0) {
		unique_ptr<g8::DataImit> a;
		{
			auto ld = lent(d);
			auto lk = lent(LK(anyLazyKey()));
			a = make_unique<g8::DataImit>(*ld, *lk);
		}
		got = a->value();
		want = g8::DataImit(d, anyLazyKey()).value();
	}
	if (what == 1) {
		unique_ptr<mg::Imit> a;
		{
			auto ls = lent(shared_ptr<const Source>(make_shared<VecSource>(d)));
			auto lk = lent(LK(anyLazyKey()));
			a = make_unique<mg::Imit>(*ls, *lk);
		}
		g = num(a->value());
		w = num(mg::Imit(make_shared<VecSource>(d), anyLazyKey()).value());
	}
	if (what == 2) {
		unique_ptr<g8::ImitedBlock> a;
		{
			auto lb = lent(mg::BlkRaw(x));
			auto lk = lent(LK(anyLazyKey()));
			a = make_unique<g8::ImitedBlock>(*lb, *lk);
		}
		g = num(a->value().value());
		w = RefAnyLazyKey().I16(x);
	}
	assertBytes(got, want, "tag after data and key are gone");
	gs_assert_eq(g, w, "tag after data and key are gone");
	gs_reach("end");
}

// ------------------------------------------------ copies
ENTRY c20_copy_kuz_blocks()
{
	size_t what = gs_choice_(KUZ_BLOCKS, "what");
	usedFirst = gs_choice_(2, "used");
	auto x = symB("x"), y = symB("y"), z = symB("z");
	auto key = make_shared<const kz::Key>(make_shared<RawKeyData>(RFC_K1, RFC_K2));
	auto key2 = Copied::make<const kz::Key>(make_shared<RawKeyData>(RFC_K1, RFC_K2));
	auto raw = [](ref::B128 b) { return KB(Copied::make<kz::BlkRaw>(b.lo, b.hi)); };
	auto b = kuzBlock<Copied>(what, raw(x), raw(y), raw(z), key2);
	auto w = kuzBlock<Plain>(what, blk(x), blk(y), blk(z), key)->value();
	assertB(b->value(), {w.first, w.second}, "copy of a block that is gone");
	gs_reach("end");
}
ENTRY c20_copy_mag_blocks()
{
	size_t what = gs_choice_(MAG_BLOCKS, "what");
	usedFirst = gs_choice_(2, "used");
	auto x = gs_sym<uint64_t>("x"), y = gs_sym<uint64_t>("y"), z = gs_sym<uint64_t>("z");
	auto raw = [](uint64_t v) { return MB(Copied::make<mg::BlkRaw>(v)); };
	auto b = magBlock<Copied>(what, raw(x), raw(y), raw(z), make_shared<AnyKey>());
	auto w = magBlock<Plain>(what, make_shared<mg::BlkRaw>(x), make_shared<mg::BlkRaw>(y), make_shared<mg::BlkRaw>(z), make_shared<AnyKey>());
	gs_assert_eq(num(b->value()), num(w->value()), "copy of a block that is gone");
	gs_reach("end");
}
ENTRY c20_copy_keys()
{
	auto k = magKey();
	auto x = gs_sym<uint32_t>("x");
	auto sb = Copied::make<mg::SboxTwisted>(make_unique<mg::SboxByte>(k.box));
	auto key = Copied::make<mg::LazyKey>(k.words, sb);
	auto n = Copied::make<mg::KeyDataNative>(k.words);
	auto s = Copied::make<mg::KeyDataString>(string(HEX));
	auto r = Copied::make<mg::SboxR3412>();
	auto t = Copied::make<mg::SboxByte64Tab>(k.box, 2);
	vector<vector<int>> p(8, vector<int>(16));
	for (int i = 0; i < 8; i++) for (int j = 0; j < 16; j++) p[i][j] = k.ref.pi[i][j];
	auto nib = Copied::make<mg::SboxNibble>(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]);
	for (int i = 0; i < 8; i++) {
		gs_assert_eq(key->transform(x, i), k.ref.g(k.words[i], x), "copy of a key");
		gs_assert_eq(n->key(i), mg::KeyDataNative(k.words).key(i), "copy of a key store");
		gs_assert_eq(s->key(i), mg::KeyDataString(HEX).key(i), "copy of a key store");
	}
	gs_assert_eq(nib->transform(x), k.ref.t(x), "copy of a substitution");
	gs_assert_eq(r->transform(x), mg::SboxR3412().transform(x), "copy of a substitution");
	for (int i = 0; i < 256; i++) gs_assert_eq(t->translate(i), mg::SboxByte64Tab(k.box, 2).translate(i), "copy of a table");
	gs_reach("end");
}
ENTRY c20_copy_modes()
{
	auto iv = gs_sym<uint64_t>("iv"), iv2 = gs_sym<uint64_t>("iv2");
	size_t n = 8 * gs_choice_(3, "blocks"), what = gs_choice_(6, "what");
	if (what < 4) n += gs_choice_(2, "more") * 5;
	auto m = gs_bytes(n, "msg");
	RefAnyKey r;
	auto k = make_shared<AnyKey>();
	Bytes out, want = what < 2 ? ref::cfb(r, {iv}, m, what == 0) : what < 4 ? ref::cfb(r, {iv, iv2}, m, what == 2) : ref::ecb(r, m, what == 4);
	if (what % 2 == 0) {
		auto below = make_shared<CollectSink>();
		shared_ptr<const Sink> s;
		if (what == 0) s = Copied::make<g8::CFBSink>(below, k, iv);
		if (what == 2) s = Copied::make<mg::CFBSink>(below, k, iv, iv2);
		if (what == 4) s = Copied::make<mg::ECBSink>(below, k);
		out = collected(s->write(toS(m))->finalize());
	} else {
		auto below = make_shared<VecSource>(m);
		shared_ptr<const Source> s;
		if (what == 1) s = Copied::make<g8::CFBSource>(below, k, iv);
		if (what == 3) s = Copied::make<mg::CFBSource>(below, k, iv, iv2);
		if (what == 5) s = Copied::make<mg::ECBSource>(below, k);
		out = drain(s, 8);
	}
	assertBytes(out, want, "copy of a sink or source");
	gs_reach("end");
}
ENTRY c20_copy_macs()
{
	size_t n = gs_choice_(18, "len");
	usedFirst = gs_choice_(2, "used");
	auto d = gs_bytes(n, "msg");
	auto a = Copied::make<mg::Imit>(make_shared<VecSource>(d), anyLazyKey());
	gs_assert_eq(num(a->value()), num(mg::Imit(make_shared<VecSource>(d), anyLazyKey()).value()), "copy of a MAC");
	auto b = Copied::make<g8::DataImit>(d, anyLazyKey());
	assertBytes(b->value(), g8::DataImit(d, anyLazyKey()).value(), "copy of an imitation insert");
	gs_reach("end");
}
ENTRY c20_copy_streams()
{
	size_t n = 1 + gs_choice_(4, "words");
	usedFirst = gs_choice_(2, "used");
	vector<uint64_t> w(n);
	gs_symbolic(w.data(), 8 * n, "words");
	auto iv = gs_sym<uint64_t>("iv");
	auto key = make_shared<const kz::Key>(make_shared<RawKeyData>(RFC_K1, RFC_K2));
	auto st = make_shared<kz::StMemory>(w);
	auto a = Copied::make<kz::StMemory>(w)->iter();
	auto c = Copied::make<kz::StCTREncrypted>(st, key, iv)->iter(), c2 = kz::StCTREncrypted(st, key, iv).iter();
	for (size_t i = 0; i < n; i += 2) {
		gs_assert(a && c, "a copy of a stream has all its blocks");
		if (!a || !c) return;
		gs_assert_eq(a->value().first, w[i], "copy of a stream");
		auto v = c2->value();
		assertB(c->value(), {v.first, v.second}, "copy of an encrypted stream");
		a = a->next();
		c = c->next();
		c2 = c2->next();
	}
	gs_assert(!a && !c, "a copy of a stream ends");
	auto m = Copied::make<kz::Imit>(st, key);
	auto v = kz::Imit(st, key).value();
	assertB(m->value(), {v.first, v.second}, "copy of a MAC");
	gs_reach("end");
}
