// The interfaces a user can implement: keys, key stores, substitutions. Everything works over any of them.
#include "anykey.h"
#include <goost/gost89/CFBSink.h>
#include <goost/gost89/CFBSource.h>
#include <goost/gost89/DataImit.h>
#include <goost/gost89/ImitedBlock.h>
#include <goost/magma/BlkBackwarded.h>
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/BlkForwarded.h>
#include <goost/magma/BlkRaw.h>
#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>
#include <goost/magma/EncryptionBase.h>
#include <goost/magma/Imit.h>
#include <goost/magma/KeyCachedData.h>
#include <goost/magma/KeyDataNative.h>
#include <goost/magma/SboxTwisted.h>
using namespace goost;
using namespace std;
namespace mg = goost::magma;
namespace g8 = goost::gost89;

ENTRY c23_base()
{
	auto x = gs_sym<uint64_t>("x");
	auto v = mg::EncryptionBase(make_shared<AnyKey>()).transform(x);
	gs_assert_eq(v, RefAnyKey().E(x), "EncryptionBase over any key");
	auto lazy = mg::EncryptionBase(anyLazyKey()).transform(x);
	gs_assert_eq(lazy, RefAnyLazyKey().E(x), "EncryptionBase over any key store and substitution");
	gs_reach("end");
}
ENTRY c23_blocks()
{
	auto x = gs_sym<uint64_t>("x");
	auto k = anyLazyKey();
	auto b = make_shared<mg::BlkRaw>(x);
	gs_assert_eq(num(mg::BlkEncrypted(b, k).value()), RefAnyLazyKey().E(x), "BlkEncrypted over any key store and substitution");
	gs_assert_eq(num(mg::BlkDecrypted(b, k).value()), RefAnyLazyKey().D(x), "BlkDecrypted over any key store and substitution");
	gs_assert_eq(num(g8::ImitedBlock(mg::BlkRaw(x), k).value().value()), RefAnyLazyKey().I16(x), "ImitedBlock over any key store and substitution");
	gs_assert_eq(num(mg::BlkDecrypted(make_shared<mg::BlkEncrypted>(b, k), k).value()), x, "decryption inverts encryption whatever the substitution");
	gs_assert_eq(num(mg::BlkEncrypted(make_shared<mg::BlkDecrypted>(b, k), k).value()), x, "encryption inverts decryption whatever the substitution");
	gs_reach("end");
}
// sinks and sources take any implementation of the key interface
static void sinkAny(const shared_ptr<const Sink> &s, const Bytes &m, const Bytes &want, const char *msg)
{
	assertBytes(collected(s->write(toS(m))->finalize()), want, msg);
}
ENTRY c23_sinks()
{
	auto k = make_shared<AnyKey>();
	vector<uint64_t> iv(2);
	gs_symbolic(iv.data(), 16, "iv");
	size_t n = gs_choice_(25, "len");
	auto m = gs_bytes(n, "msg");
	auto low = make_shared<CollectSink>();
	sinkAny(make_shared<g8::CFBSink>(low, k, iv[0]), m, ref::cfb(RefAnyKey(), {iv[0]}, m, true), "gost89::CFBSink over any key");
	sinkAny(make_shared<mg::CFBSink>(low, k, iv[0], iv[1]), m, ref::cfb(RefAnyKey(), iv, m, true), "magma::CFBSink over any key");
	if (n % 8 == 0) sinkAny(make_shared<mg::ECBSink>(low, k), m, ref::ecb(RefAnyKey(), m, true), "ECBSink over any key");
	gs_reach("end");
}
ENTRY c23_sources()
{
	auto k = make_shared<AnyKey>();
	vector<uint64_t> iv(2);
	gs_symbolic(iv.data(), 16, "iv");
	size_t n = gs_choice_(25, "len");
	auto c = gs_bytes(n, "ct");
	auto low = make_shared<VecSource>(c);
	assertBytes(drain(make_shared<g8::CFBSource>(low, k, iv[0]), 5), ref::cfb(RefAnyKey(), {iv[0]}, c, false), "gost89::CFBSource over any key");
	assertBytes(drain(make_shared<mg::CFBSource>(low, k, iv[0], iv[1]), 5), ref::cfb(RefAnyKey(), iv, c, false), "magma::CFBSource over any key");
	if (n % 8 == 0) assertBytes(drain(make_shared<mg::ECBSource>(low, k), 8), ref::ecb(RefAnyKey(), c, false), "ECBSource over any key");
	gs_reach("end");
}
// the cache asks the store for what it holds and no more than once; the wrapper rotates any substitution
ENTRY c23_store()
{
	mg::KeyCachedData c(make_unique<AnyKeyData>());
	for (int r = 0; r < 2; r++)
		for (int i = 0; i < 8; i++) gs_assert_eq(c.key(i), anyWord(i), "cached words of any key store");
	auto x = gs_sym<uint32_t>("x");
	uint32_t s = anySubst(x);
	gs_assert_eq(mg::SboxTwisted(make_unique<AnySbox>()).transform(x), s << 11 | s >> 21, "SboxTwisted rotates any substitution");
	mg::LazyKey l(make_unique<AnyKeyData>(), make_shared<AnySbox>());
	for (int i = 0; i < 8; i++) gs_assert_eq(l.transform(x, i), anySubst(anyWord(i) + x), "LazyKey over any key store and substitution");
	gs_reach("end");
}
