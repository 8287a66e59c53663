#include "common.h"
#include <goost/kuznyechik/BlkEncrypted.h>
#include <goost/kuznyechik/BlkCached.h>
using namespace goost::kuznyechik;
using namespace std;

// E_K(x) is the 34.12 cipher for every 256-bit key and every block.
ENTRY c01_encrypt()
{
	auto k1 = symB("k1"), k2 = symB("k2"), x = symB("x");
	auto key = make_shared<Key>(make_shared<RawKeyData>(k1, k2));
	auto v = key->encrypt(blk(x))->value();
	gs_reach("encrypted");
	assertB(v, ref::Kuz(k1, k2).E(x), "E_K(x) equals GOST R 34.12-2015 Kuznyechik");
	emitB("e", v);
}
// BlkEncrypted is the same function, and the same key object encrypts a second block right
ENTRY c01_blkencrypted()
{
	auto k1 = symB("k1"), k2 = symB("k2"), x = symB("x"), y = symB("y");
	auto key = make_shared<Key>(make_shared<RawKeyData>(k1, k2));
	ref::Kuz rk(k1, k2);
	assertB(BlkEncrypted(blk(x), key).value(), rk.E(x), "BlkEncrypted equals the cipher");
	assertB(BlkEncrypted(blk(y), key).value(), rk.E(y), "second block under the same key object");
	assertB(key->encrypt(make_shared<BlkCached>(blk(x)))->value(), rk.E(x), "repeated encryption under the same key object");
	gs_reach("encrypted");
}
