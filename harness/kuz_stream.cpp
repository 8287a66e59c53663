#include "common.h"
#include <goost/kuznyechik/Imit.h>
#include <goost/kuznyechik/Iterator.h>
#include <goost/kuznyechik/StCTREncrypted.h>
#include <goost/kuznyechik/StMemory.h>
#include <goost/kuznyechik/Stream.h>
using namespace goost::kuznyechik;
using namespace std;

#ifndef MAXBLK
#define MAXBLK 4
#endif

static vector<ref::B128> symBlocks(size_t n)
{
	vector<ref::B128> b(n);
	if (n) gs_symbolic(b.data(), n * sizeof(ref::B128), "data");
	return b;
}
static vector<uint64_t> words(const vector<ref::B128> &b)
{
	vector<uint64_t> w;
	for (auto &x : b) {
		w.push_back(x.lo);
		w.push_back(x.hi);
	}
	return w;
}
static ref::B128 inc(ref::B128 c)
{
	c.lo++;
	if (!c.lo) c.hi++;
	return c;
}

// ------------------------------------------------------------------ CTR
// Keys in these entries are fixed where noted; the cipher itself is decided for every key by
// the c01 entries, and here the counter mode is decided for every IV, every data and a key
// schedule over an arbitrary key.
static void ctr(size_t n, ref::B128 k1, ref::B128 k2)
{
	auto data = symBlocks(n);
	auto iv = gs_sym<uint64_t>("iv");
	auto key = make_shared<Key>(make_shared<RawKeyData>(k1, k2));
	auto st = make_shared<StCTREncrypted>(make_shared<StMemory>(words(data)), key, iv);
	ref::Kuz rk(k1, k2);
	ref::B128 c{0, iv};
	auto it = st->iter();
	vector<uint64_t> out;
	for (size_t i = 0; i < n; i++) {
		gs_assert(bool(it), "one output block per input block");
		auto v = it->value();
		assertB(v, data[i] ^ rk.E(c), "block i is P_i xor E_K(IV || i)");
		gs_assert_eq(it->size(), 16, "full block");
		gs_assert(it->last() == (i + 1 == n), "last() exactly at the last block");
		out.push_back(v.first);
		out.push_back(v.second);
		c = inc(c);
		if (i + 1 < n) it = it->next();
	}
	gs_assert(!it->next(), "the stream ends after the last block");
	// decryption is the same operation
	auto back = StCTREncrypted(make_shared<StMemory>(out), key, iv).iter();
	for (size_t i = 0; i < n; i++) {
		assertB(back->value(), data[i], "encrypting twice restores the data");
		if (i + 1 < n) back = back->next();
	}
	gs_reach("end");
}
static const ref::B128 RFC_K1{0x0011223344556677ull, 0x8899aabbccddeeffull}, RFC_K2{0x0123456789abcdefull, 0xfedcba9876543210ull};
ENTRY c03_ctr_anykey()
{
	auto k1 = symB("k1"), k2 = symB("k2");
	ctr(2, k1, k2);
}
ENTRY c03_ctr_fixedkey()
{
	ctr(1 + gs_choice_(MAXBLK, "n"), RFC_K1, RFC_K2);
}
// the counter step for every counter value, and not only for those near an IV: the counter
// block is incremented modulo 2^128 (c02_inc); here: an arbitrary source iterator
class AnyIter final : public Iterator {
public:
	AnyIter(ref::B128 v, size_t sz, bool l, const shared_ptr<const Iterator> &n) : v(v), sz(sz), l(l), n(n) {}
	pair<uint64_t, uint64_t> value() const override { return {v.lo, v.hi}; }
	bool last() const override { return l; }
	size_t size() const override { return sz; }
	shared_ptr<const Iterator> next() const override { return n; }
private:
	const ref::B128 v;
	const size_t sz;
	const bool l;
	const shared_ptr<const Iterator> n;
};
class AnyStream final : public Stream {
public:
	explicit AnyStream(const shared_ptr<const Iterator> &i) : i(i) {}
	shared_ptr<const Iterator> iter() const override { return i; }
private:
	const shared_ptr<const Iterator> i;
};
ENTRY c03_ctr_custom()
{
	auto data = symBlocks(2);
	auto iv = gs_sym<uint64_t>("iv");
	size_t sz = 1 + gs_choice_(16, "size");
	auto key = make_shared<Key>(make_shared<RawKeyData>(RFC_K1, RFC_K2));
	auto i1 = make_shared<AnyIter>(data[1], sz, true, nullptr);
	auto i0 = make_shared<AnyIter>(data[0], 16, false, i1);
	auto it = StCTREncrypted(make_shared<AnyStream>(i0), key, iv).iter();
	ref::Kuz rk(RFC_K1, RFC_K2);
	assertB(it->value(), data[0] ^ rk.E({0, iv}), "first block");
	gs_assert(!it->last(), "first block is not last");
	it = it->next();
	assertB(it->value(), data[1] ^ rk.E({1, iv}), "second block");
	gs_assert(it->last(), "second block is last");
	gs_assert_eq(it->size(), sz, "the size of a short block is passed through");
	gs_reach("end");
}
ENTRY c03_ctr_empty()
{
	auto key = make_shared<Key>(make_shared<RawKeyData>(RFC_K1, RFC_K2));
	auto iv = gs_sym<uint64_t>("iv");
	auto it = StCTREncrypted(make_shared<StMemory>(vector<uint64_t>{}), key, iv).iter();
	gs_assert(!it, "an empty stream encrypts to an empty stream");
	gs_reach("end");
}

// long streams: the key and the nonce are fixed, the data is arbitrary
#ifdef THOROUGH
#define LONGCTR 1100
#define FARCTR 65538
#else
#define LONGCTR 260
#define FARCTR 65538
#endif
class NthIter final : public Iterator {
public:
	NthIter(ref::B128 v, size_t i, size_t n) : v(v), i(i), n(n) {}
	pair<uint64_t, uint64_t> value() const override { return {v.lo ^ i, v.hi}; }
	bool last() const override { return i + 1 == n; }
	size_t size() const override { return 16; }
	shared_ptr<const Iterator> next() const override
	{
		if (last()) return {};
		return make_shared<NthIter>(v, i + 1, n);
	}
private:
	const ref::B128 v;
	const size_t i, n;
};
static uint64_t someIv()
{
	return gs_choice_(2, "iv") ? 0x1234567890abcef0ull : 0xffffffffffffffffull;
}
ENTRY c03_ctr_long()
{
	auto iv = someIv();
	auto x = symB("x");
	auto key = make_shared<Key>(make_shared<RawKeyData>(RFC_K1, RFC_K2));
	ref::Kuz rk(RFC_K1, RFC_K2);
	auto it = StCTREncrypted(make_shared<AnyStream>(make_shared<NthIter>(x, 0, LONGCTR)), key, iv).iter();
	for (size_t i = 0; i < LONGCTR; i++) {
		gs_assert(bool(it), "one output block per input block of a long stream");
		assertB(it->value(), ref::B128{x.lo ^ i, x.hi} ^ rk.E({i, iv}), "block i of a long stream is P_i xor E_K(IV || i)");
		gs_assert(it->last() == (i + 1 == LONGCTR), "last() exactly at the last block of a long stream");
		it = it->next();
	}
	gs_assert(!it, "a long stream ends after its last block");
	gs_reach("end");
}
// far into a stream: the blocks on the way are skipped, not evaluated
ENTRY c03_ctr_far()
{
	auto iv = someIv();
	auto x = symB("x");
	auto key = make_shared<Key>(make_shared<RawKeyData>(RFC_K1, RFC_K2));
	ref::Kuz rk(RFC_K1, RFC_K2);
	auto it = StCTREncrypted(make_shared<AnyStream>(make_shared<NthIter>(x, 0, FARCTR)), key, iv).iter();
	for (size_t i = 0; i < FARCTR; i++) {
		if (i >= FARCTR - 4)
			assertB(it->value(), ref::B128{x.lo ^ i, x.hi} ^ rk.E({i, iv}), "block i far into a stream is P_i xor E_K(IV || i)");
		it = it->next();
	}
	gs_assert(!it, "the stream ends after its last block");
	gs_reach("end");
}
// a long message: the key and all blocks but the first and the last are fixed
#ifdef THOROUGH
#define LONGMAC 140
#else
#define LONGMAC 20
#endif
ENTRY c04_mac_long()
{
	size_t n = LONGMAC - gs_choice_(2, "less"), sz = gs_choice_(2, "short") ? 3 : 16;
	auto last = symB("last");
	auto key = make_shared<Key>(make_shared<RawKeyData>(RFC_K1, RFC_K2));
	vector<ref::B128> data(n);
	for (size_t i = 0; i < n; i++) data[i] = {0x0123456789abcdef * (i + 1), 0xfedcba9876543211 * (i + 3)};
	data[n - 1] = last;
	shared_ptr<const Iterator> it = make_shared<AnyIter>(last, sz, true, nullptr);
	for (size_t i = n - 1; i--;) it = make_shared<AnyIter>(data[i], 16, false, it);
	auto v = Imit(make_shared<AnyStream>(it), key).value();
	assertB(v, ref::kuzMac(ref::Kuz(RFC_K1, RFC_K2), data, sz == 16), "MAC of a long stream");
	gs_reach("end");
}

// ------------------------------------------------------------------ MAC
static void mac(size_t n, ref::B128 k1, ref::B128 k2)
{
	auto data = symBlocks(n);
	auto key = make_shared<Key>(make_shared<RawKeyData>(k1, k2));
	auto v = Imit(make_shared<StMemory>(words(data)), key).value();
	assertB(v, ref::kuzMac(ref::Kuz(k1, k2), data), "MAC of full blocks is the 34.13 imitovstavka");
	emitB("mac", v);
	gs_reach("end");
}
ENTRY c04_mac_anykey1()
{
	auto k1 = symB("k1"), k2 = symB("k2");
	mac(1, k1, k2);
}
ENTRY c04_mac_anykey2()
{
	auto k1 = symB("k1"), k2 = symB("k2");
	mac(2, k1, k2);
}
ENTRY c04_mac_anykey3()
{
	auto k1 = symB("k1"), k2 = symB("k2");
	mac(3, k1, k2);
}
ENTRY c04_mac_fixedkey()
{
	mac(1 + gs_choice_(MAXBLK, "n"), RFC_K1, RFC_K2);
}
// keys for which the doubled constants take the other branch
ENTRY c04_mac_fixedkey2()
{
	auto sel = gs_choice_(4, "key");
	ref::B128 k1 = RFC_K1, k2 = RFC_K2;
	k1.lo ^= sel * 0x9e3779b97f4a7c15ull;
	mac(2, k1, k2);
}
// a short last block is masked with the second derived key
static void macShort(size_t sz, ref::B128 k1, ref::B128 k2)
{
	auto data = symBlocks(2);
	auto key = make_shared<Key>(make_shared<RawKeyData>(k1, k2));
	auto i1 = make_shared<AnyIter>(data[1], sz, true, nullptr);
	auto i0 = make_shared<AnyIter>(data[0], 16, false, i1);
	auto v = Imit(make_shared<AnyStream>(i0), key).value();
	assertB(v, ref::kuzMac(ref::Kuz(k1, k2), data, false), "short last block uses the second derived key");
	gs_reach("end");
}
ENTRY c04_mac_short()
{
	macShort(1 + gs_choice_(15, "size"), RFC_K1, RFC_K2);
}
ENTRY c04_mac_short_anykey()
{
	auto k1 = symB("k1"), k2 = symB("k2");
	macShort(1 + 7 * gs_choice_(3, "size"), k1, k2);
}
// a stream of an odd number of 64-bit words ends with a short block, padded with zeroes
ENTRY c04_mac_odd()
{
	size_t n = 1 + 2 * gs_choice_(2, "words");
	vector<uint64_t> w(n);
	gs_symbolic(w.data(), 8 * n, "words");
	vector<ref::B128> data;
	for (size_t i = 0; i < n; i += 2) data.push_back({w[i], i + 1 < n ? w[i + 1] : 0});
	auto key = make_shared<Key>(make_shared<RawKeyData>(RFC_K1, RFC_K2));
	auto v = Imit(make_shared<StMemory>(w), key).value();
	assertB(v, ref::kuzMac(ref::Kuz(RFC_K1, RFC_K2), data, false), "odd number of words: short last block");
	gs_reach("end");
}
ENTRY c04_mac_empty()
{
	auto key = make_shared<Key>(make_shared<RawKeyData>(RFC_K1, RFC_K2));
	auto v = Imit(make_shared<StMemory>(vector<uint64_t>{}), key).value();
	emitB("mac", v);
	gs_reach("end");
}

// ------------------------------------------------------------------ StMemory
ENTRY c06_enumerate()
{
	size_t nw = 1 + gs_choice_(2 * MAXBLK + 1, "words");
	vector<uint64_t> w(nw);
	gs_symbolic(w.data(), nw * 8, "words");
	auto st = make_shared<StMemory>(w);
	auto it = st->iter();
	size_t pos = 0;
	while (pos < nw) {
		gs_assert(bool(it), "the stream does not end before the data");
		if (!it) return;
		auto v = it->value();
		gs_assert_eq(v.first, w[pos], "low word");
		gs_assert_eq(v.second, pos + 1 < nw ? w[pos + 1] : 0, "high word, zero past the end");
		gs_assert_eq(it->size(), pos + 1 < nw ? 16 : 8, "size of the block in bytes");
		gs_assert(it->last() == (pos + 2 >= nw), "last() exactly at the last block");
		auto again = it->value();
		gs_assert_eq(again.first, v.first, "value() is repeatable");
		it = it->next();
		pos += 2;
	}
	gs_assert(!it, "the stream ends with the data");
	gs_reach("end");
}
ENTRY c06_empty()
{
	auto st = make_shared<StMemory>(vector<uint64_t>{});
	gs_assert(!st->iter(), "an empty stream has no first block");
	gs_reach("end");
}
ENTRY c06_next_iter()
{
	size_t nb = 1 + gs_choice_(MAXBLK, "blocks");
	auto data = symBlocks(nb);
	auto st = make_shared<StMemory>(words(data));
	size_t k = gs_choice_(MAXBLK + 2, "k");
	auto it = st->next_iter(16 * k);
	gs_assert(bool(it) == (k < nb), "an iterator exactly for offsets inside the data");
	if (it) assertB(it->value(), data[k], "block at the offset");
	gs_reach("end");
}
// an iterator stays usable after the caller dropped the stream it came from
ENTRY c06_lifetime()
{
	size_t nb = 1 + gs_choice_(MAXBLK, "blocks");
	size_t drop = gs_choice_(MAXBLK, "drop");
	auto data = symBlocks(nb);
	auto st = make_shared<StMemory>(words(data));
	auto it = st->iter();
	for (size_t i = 0; i < nb; i++) {
		if (i == drop) st.reset();
		assertB(it->value(), data[i], "block i");
		gs_assert(it->last() == (i + 1 == nb), "last()");
		it = it->next();
	}
	gs_assert(!it, "end");
	gs_reach("end");
}
ENTRY c06_lifetime_ctr()
{
	auto data = symBlocks(2);
	auto iv = gs_sym<uint64_t>("iv");
	ref::Kuz rk(RFC_K1, RFC_K2);
	shared_ptr<const Iterator> it;
	{
		auto key = make_shared<Key>(make_shared<RawKeyData>(RFC_K1, RFC_K2));
		StCTREncrypted st(make_shared<StMemory>(words(data)), key, iv);
		it = st.iter();
	}
	assertB(it->value(), data[0] ^ rk.E({0, iv}), "first block");
	gs_assert(!it->last(), "not last");
	it = it->next();
	assertB(it->value(), data[1] ^ rk.E({1, iv}), "second block");
	gs_assert(it->last(), "last");
	gs_reach("end");
}
