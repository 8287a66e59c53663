#include "common.h"
#include <goost/gost89/CFBSource.h>
#include <goost/gost89/DataImit.h>
#include <goost/gost89/ImitedBlock.h>
#include <goost/magma/BlkRaw.h>
#include <goost/magma/BlkShifted.h>
#include <goost/magma/BlkSwapped.h>
#include <goost/magma/BlkXored.h>
#include <goost/magma/ECBSource.h>
#include <goost/magma/Imit.h>
using namespace goost;
using namespace std;

#ifndef MAXBLOCKS
#define MAXBLOCKS 4
#endif
static uint64_t macOf(const MagKey &k, const Bytes &m)
{
	return num(magma::Imit(make_shared<VecSource>(m), k.key).value());
}
// ------------------------------------------------------------------ 34.13 MAC, 64-bit cipher
ENTRY c15_mac_blocks()
{
	auto k = magKey();
	size_t n = 8 * (1 + gs_choice_(MAXBLOCKS, "blocks"));
	auto m = gs_bytes(n, "msg");
	auto v = macOf(k, m);
	gs_assert_eq(v, ref::magMac(k.ref, m), "MAC of whole blocks is the 34.13 imitovstavka");
	gs_emit("mac", v);
	gs_reach("end");
}
ENTRY c15_mac_blocks_z()
{
	auto k = magKeyZ();
	size_t n = 8 * (1 + gs_choice_(2, "blocks"));
	auto m = gs_bytes(n, "msg");
	auto v = macOf(k, m);
	gs_assert_eq(v, ref::magMac(k.ref, m), "MAC of whole blocks, 34.12 substitution");
	gs_reach("end");
}
// A partial last block: the second derived key and either zero padding (what the library does; see
// c15_mac_partial_std) or padding with a single bit.
static size_t partialLen()
{
	size_t n = gs_choice_(MAXBLOCKS * 7, "len");
	return n / 7 * 8 + n % 7 + 1;
}
ENTRY c15_mac_partial()
{
	auto k = magKey();
	size_t n = partialLen();
	auto m = gs_bytes(n, "msg");
	auto v = macOf(k, m);
	gs_assert((v == ref::magMac(k.ref, m)) | (v == ref::magMac(k.ref, m, 0x80)) | (v == ref::magMac(k.ref, m, 0x01)),
		"MAC of a message with a partial last block uses the second derived key");
	gs_reach("end");
}
// A MAC that pads with zeroes only gives a message and the same message with a zero byte appended the same code.
ENTRY c15_mac_partial_std()
{
	auto k = magKeyZ();
	size_t n = 1 + gs_choice_(6, "len");
	auto m = gs_bytes(n, "msg");
	auto v = macOf(k, m);
	gs_assert((v == ref::magMac(k.ref, m, 0x80)) | (v == ref::magMac(k.ref, m, 0x01)),
		"a partial last block is padded with a single bit");
	gs_reach("end");
}
// the MAC of a decrypted stream is the MAC of the plaintext
ENTRY c15_mac_over_sources()
{
	auto k = magKey();
	auto iv = gs_sym<uint64_t>("iv");
	auto c = gs_bytes(16, "ct");
	auto p = ref::cfb(k.ref, {iv}, c, false);
	auto v = num(magma::Imit(make_shared<gost89::CFBSource>(make_shared<VecSource>(c), k.key, iv), k.key).value());
	gs_assert_eq(v, ref::magMac(k.ref, p), "MAC over a CFB source");
	auto e = num(magma::Imit(make_shared<magma::ECBSource>(make_shared<VecSource>(c), k.key), k.key).value());
	gs_assert_eq(e, ref::magMac(k.ref, ref::ecb(k.ref, c, false)), "MAC over an ECB source");
	gs_reach("end");
}
// ------------------------------------------------------------------ 28147-89 imitovstavka
ENTRY c16_imit()
{
	auto k = magKey();
	size_t n = gs_choice_(8 * MAXBLOCKS + 2, "len");
	auto m = gs_bytes(n, "msg");
	auto v = gost89::DataImit(m, k.key).value();
	gs_assert_eq(v.size(), 8, "8 bytes");
	gs_assert_eq(ref::loadLE(v.data()), ref::gostImit(k.ref, m), "28147-89 imitovstavka of the zero-padded message");
	emitBytes("imit", v);
	gs_reach("end");
}
ENTRY c16_imit_z()
{
	auto k = magKeyZ();
	auto m = gs_bytes(16, "msg");
	auto v = gost89::DataImit(m, k.key).value();
	gs_assert_eq(ref::loadLE(v.data()), ref::gostImit(k.ref, m), "28147-89 imitovstavka, fixed substitution");
	gs_reach("end");
}
ENTRY c16_block()
{
	auto k = magKey();
	auto x = gs_sym<uint64_t>("x");
	gs_assert_eq(num(gost89::ImitedBlock(magma::BlkRaw(x), k.key).value().value()), k.ref.I16(x), "16 rounds of the cipher");
	gs_reach("end");
}
// ------------------------------------------------------------------ 64-bit block primitives
class AnyBlock final : public magma::Block {
public:
	explicit AnyBlock(uint64_t v) : v(v) {}
	pair<uint32_t, uint32_t> value() const override { return {uint32_t(v), uint32_t(v >> 32)}; }
private:
	const uint64_t v;
};
ENTRY c09_shift()
{
	auto x = gs_sym<uint64_t>("x");
	int n = 1 + gs_choice_(31, "n");
	gs_assert_eq(num(magma::BlkShifted(make_shared<AnyBlock>(x), n).value()), x << n, "BlkShifted shifts the 64-bit number left");
	gs_reach("end");
}
ENTRY c09_blocks()
{
	auto x = gs_sym<uint64_t>("x"), y = gs_sym<uint64_t>("y");
	auto a = make_shared<AnyBlock>(x), b = make_shared<AnyBlock>(y);
	gs_assert_eq(num(magma::BlkXored(a, b).value()), x ^ y, "BlkXored");
	auto z = gs_sym<uint64_t>("z"), w = gs_sym<uint64_t>("w");
	auto c = make_shared<AnyBlock>(z), d = make_shared<AnyBlock>(w);
	gs_assert_eq(num(magma::BlkXored(a, b, c).value()), x ^ y ^ z, "BlkXored of three blocks");
	gs_assert_eq(num(magma::BlkXored(a, b, c, d).value()), x ^ y ^ z ^ w, "BlkXored of four blocks");
	gs_assert_eq(num(magma::BlkSwapped(a).value()), x << 32 | x >> 32, "BlkSwapped");
	gs_assert_eq(num(magma::BlkRaw(x).value()), x, "BlkRaw of a number");
	gs_assert_eq(num(magma::BlkRaw(uint32_t(x), uint32_t(x >> 32)).value()), x, "BlkRaw of two halves");
	gs_assert_eq(num(magma::BlkRaw(static_pointer_cast<const magma::Block>(a)).value()), x, "BlkRaw of a block");
	gs_assert_eq(num(magma::BlkRaw(a->value()).value()), x, "BlkRaw of a pair");
	gs_assert_eq(num(magma::BlkRaw(static_cast<const void *>(&x)).value()), x, "BlkRaw of memory");
	Bytes v(8);
	ref::storeLE(v.data(), x);
	gs_assert_eq(num(magma::BlkRaw(v).value()), x, "BlkRaw of bytes");
	gs_assert_eq(num(magma::BlkRaw().value()), 0, "BlkRaw of nothing");
	gs_reach("end");
}
