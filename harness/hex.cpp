#include "common.h"
#include <goost/kuznyechik/BlkEncrypted.h>
#include <goost/kuznyechik/BlkString.h>
#include <goost/kuznyechik/KeyDataString.h>
#include <goost/magma/BlkString.h>
#include <goost/magma/KeyDataString.h>
using namespace goost;
using namespace std;

// n arbitrary hexadecimal digits, and their values (most significant first)
static string digits(size_t n, vector<unsigned> &val)
{
	auto raw = gs_bytes(n, "digits");
	string s;
	val.resize(n);
	for (size_t i = 0; i < n; i++) s.push_back(hexDigit(raw[i], val[i]));
	return s;
}
// the number written by digits [from, to) counted from the least significant end
static uint64_t number(const vector<unsigned> &val, size_t from, size_t to)
{
	uint64_t r = 0;
	for (size_t i = from; i < to && i < val.size(); i++) r |= uint64_t(val[val.size() - 1 - i]) << (4 * (i - from));
	return r;
}
static void kuzBlk(size_t n)
{
	vector<unsigned> val;
	auto v = kuznyechik::BlkString(digits(n, val)).value();
	gs_assert_eq(v.first, number(val, 0, 16), "low half of the 128-bit number");
	gs_assert_eq(v.second, number(val, 16, 32), "high half of the 128-bit number");
	emitB("v", v);
	gs_reach("end");
}
ENTRY c05_kuz_blk_full() { kuzBlk(32); }
ENTRY c05_kuz_blk_short() { kuzBlk(gs_choice_(16, "len")); }
ENTRY c05_kuz_blk_mid() { kuzBlk(16 + gs_choice_(16, "len")); }
static void magBlk(size_t n)
{
	vector<unsigned> val;
	auto v = magma::BlkString(digits(n, val)).value();
	gs_assert_eq(v.first, number(val, 0, 8), "low half of the 64-bit number");
	gs_assert_eq(v.second, number(val, 8, 16), "high half of the 64-bit number");
	gs_emit("v", num(v));
	gs_reach("end");
}
ENTRY c05_mag_blk_full() { magBlk(16); }
ENTRY c05_mag_blk_short() { magBlk(gs_choice_(16, "len")); }
ENTRY c05_kuz_keydata()
{
	vector<unsigned> val;
	kuznyechik::KeyDataString k(digits(64, val));
	auto l = k.low()->value(), h = k.high()->value();
	gs_assert_eq(l.first, number(val, 0, 16), "low block of the key");
	gs_assert_eq(l.second, number(val, 16, 32), "low block of the key");
	gs_assert_eq(h.first, number(val, 32, 48), "high block of the key");
	gs_assert_eq(h.second, number(val, 48, 64), "high block of the key");
	gs_reach("end");
}
ENTRY c05_mag_keydata()
{
	vector<unsigned> val;
	magma::KeyDataString k(digits(64, val));
	auto i = gs_choice_(8, "index");
	gs_assert_eq(k.key(i), number(val, 8 * (7 - i), 8 * (8 - i)), "key word i is digits 8i..8i+7");
	gs_reach("end");
}
// one arbitrary word at a time, through the cached key object that applications construct
ENTRY c05_mag_lazykey_word()
{
	size_t j = gs_choice_(8, "word");
	auto raw = gs_bytes(8, "digits");
	string s;
	uint32_t want[8] = {};
	for (size_t i = 0; i < 64; i++) {
		unsigned v = (i * 7 + 3) & 15;
		char c = char(v < 10 ? '0' + v : 'a' + v - 10);
		if (i / 8 == j) c = hexDigit(raw[i % 8], v);
		s.push_back(c);
		want[i / 8] = want[i / 8] << 4 | v;
	}
	magma::LazyKey k(s);
	ref::Mag m{};
	memcpy(m.pi, ref::PARAMZ, sizeof m.pi);
	auto x = gs_sym<uint32_t>("x");
	for (int i = 7; i >= 0; i--) gs_assert_eq(k.transform(x, i), m.g(want[i], x), "round function of a key given as text");
	gs_reach("end");
}
#ifdef THOROUGH
// through the key objects that applications construct
ENTRY c05_mag_lazykey()
{
	vector<unsigned> val;
	magma::LazyKey k(digits(64, val));
	ref::Mag m{};
	memcpy(m.pi, ref::PARAMZ, sizeof m.pi);
	auto x = gs_sym<uint32_t>("x");
	for (int i = 7; i >= 0; i--)
		gs_assert_eq(k.transform(x, i), m.g(number(val, 8 * (7 - i), 8 * (8 - i)), x), "round function of a key given as text");
	gs_reach("end");
}
#endif
ENTRY c05_kuz_key()
{
	// the text form and the block form of a key are the same key
	auto k1 = symB("k1"), k2 = symB("k2");
	string s;
	for (int i = 63; i >= 0; i--) {
		const ref::B128 &b = i < 32 ? k2 : k1;
		unsigned v = ref::byteOf(b, i % 32 / 2) >> (i % 2 * 4) & 15;
		s.push_back(char(v < 10 ? '0' + v : 'a' + v - 10));
	}
	auto a = kuznyechik::Key(s).encrypt(blk({0, 0}))->value();
	auto b = kuznyechik::Key(make_shared<RawKeyData>(k1, k2)).encrypt(blk({0, 0}))->value();
	gs_assert_eq(a.first, b.first, "key text and key blocks give the same cipher");
	gs_assert_eq(a.second, b.second, "key text and key blocks give the same cipher");
	gs_reach("end");
}
