#include "common.h"
#include <goost/kuznyechik/BlkIncremented.h>
#include <goost/kuznyechik/BlkIterKey.h>
#include <goost/kuznyechik/BlkL.h>
#include <goost/kuznyechik/BlkR.h>
#include <goost/kuznyechik/BlkS.h>
#include <goost/kuznyechik/BlkShifted.h>
#include <goost/kuznyechik/BlkXored.h>
#include <goost/kuznyechik/BlkCached.h>
using namespace goost::kuznyechik;
using namespace std;

ENTRY c02_s()
{
	auto x = symB("x");
	auto v = BlkS(blk(x)).value();
	assertB(v, ref::S(x), "S is the 34.12 substitution on all 16 bytes");
	emitB("s", v);
	gs_reach("end");
}
ENTRY c02_r()
{
	auto x = symB("x");
	auto v = BlkR(blk(x)).value();
	assertB(v, ref::R(x), "R is the 34.12 linear step");
	emitB("r", v);
	gs_reach("end");
}
ENTRY c02_l()
{
	auto x = symB("x");
	auto v = BlkL(blk(x)).value();
	assertB(v, ref::L(x), "L is R applied 16 times");
	emitB("l", v);
	gs_reach("end");
}
ENTRY c02_xor()
{
	auto a = symB("a"), b = symB("b"), c = symB("c"), d = symB("d");
	assertB(BlkXored(blk(a), blk(b)).value(), a ^ b, "xor of two blocks");
	assertB(BlkXored(blk(a), blk(b), blk(c)).value(), a ^ b ^ c, "xor of three blocks");
	assertB(BlkXored(blk(a), blk(b), blk(c), blk(d)).value(), a ^ b ^ c ^ d, "xor of four blocks");
	assertB(BlkXored(blk(a), blk(b), blk(c), blk(d), blk(b)).value(), a ^ c ^ d, "xor of five blocks");
	gs_reach("end");
}
ENTRY c02_inc()
{
	auto a = symB("a");
	unsigned __int128 n = (unsigned __int128)a.hi << 64 | a.lo;
	n++;
	auto v = BlkIncremented(blk(a)).value();
	assertB(v, {uint64_t(n), uint64_t(n >> 64)}, "increment modulo 2^128, carry into the high half");
	emitB("i", v);
	gs_reach("end");
}
ENTRY c02_shift()
{
	auto a = symB("a");
	int n = 1 + gs_choice_(63, "n");
	unsigned __int128 w = (unsigned __int128)a.hi << 64 | a.lo;
	w <<= n;
	assertB(BlkShifted(blk(a), n).value(), {uint64_t(w), uint64_t(w >> 64)}, "left shift by n of the 128-bit number");
	gs_reach("end");
}
ENTRY c02_iterkey()
{
	// any stretch of the key schedule from any pair of keys: F[C_c2] ... F[C_c1] (a1, a0)
	auto ka = symB("ka"), kb = symB("kb");
#ifdef THOROUGH
	int c1 = 1 + int(gs_choice_(32, "c1"));
	int len = int(gs_choice_(9, "len"));
#else
	static const int lens[] = {0, 1, 2, 7, 8};
	int c1 = 1 + 8 * int(gs_choice_(4, "c1"));
	int len = lens[gs_choice_(5, "len")];
#endif
	ref::B128 a1 = ka, a0 = kb;
	for (int j = 0; j < len; j++) {
		auto t = ref::L(ref::S(a1 ^ ref::L({uint64_t(c1 + j), 0}))) ^ a0;
		a0 = a1;
		a1 = t;
	}
	// the rounds that stop one constant short give the second key of the pair
	auto v = BlkIterKey(blk(ka), blk(kb), c1, c1 + len - 1).value();
	assertB(v, a1, "key schedule stretch");
	gs_reach("end");
}
ENTRY c02_raw()
{
	auto x = symB("x");
	unsigned char mem[32];
	memcpy(mem + 5, &x.lo, 8);
	memcpy(mem + 13, &x.hi, 8);
	assertB(BlkRaw(x.lo, x.hi).value(), x, "low, high");
	assertB(BlkRaw(make_pair(x.lo, x.hi)).value(), x, "pair");
	assertB(BlkRaw(shared_ptr<const Block>(blk(x))).value(), x, "block");
	assertB(BlkRaw(static_cast<const void *>(mem + 5)).value(), x, "memory");
	assertB(BlkRaw(x.lo).value(), {x.lo, 0}, "low only");
	assertB(BlkRaw().value(), {0, 0}, "zero");
	gs_reach("end");
}
