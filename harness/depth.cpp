// Depth of the stack: processing a long message, or releasing what was built on the way, does not nest
// calls with the length of the message.
#include "common.h"
#include <goost/gost89/CFBSink.h>
#include <goost/gost89/CFBSource.h>
#include <goost/gost89/DataImit.h>
#include <goost/kuznyechik/BlkIncremented.h>
#include <goost/kuznyechik/Imit.h>
#include <goost/kuznyechik/Iterator.h>
#include <goost/kuznyechik/StCTREncrypted.h>
#include <goost/kuznyechik/StMemory.h>
#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>
#include <goost/magma/Imit.h>
using namespace goost;
using namespace std;
namespace kz = goost::kuznyechik;
namespace mg = goost::magma;
namespace g8 = goost::gost89;

static const ref::B128 RFC_K1{0x0011223344556677ull, 0x8899aabbccddeeffull}, RFC_K2{0x0123456789abcdefull, 0xfedcba9876543210ull};
#define FEW 3	// blocks of the short message
#ifdef THOROUGH
#define MANY 130
#else
#define MANY 67
#endif
// an arbitrary substitution: any function on 32-bit words at all
class AnySbox final : public mg::Sbox {
public:
	uint32_t transform(uint32_t v) const override
	{
		uint64_t in = v, out;
		gs_uf("sbox", &in, 1, &out, 1);
		return uint32_t(out);
	}
};
static shared_ptr<const mg::LazyKey> anyKey()
{
	return make_shared<mg::LazyKey>(vector<uint32_t>{1, 2, 3, 4, 5, 6, 7, 8}, make_shared<AnySbox>());
}
// op(n) for a short and a long message, after a first run that loads what is loaded once
template<class F> static void flat(F op, const char *msg)
{
	op(FEW);
	gs_stack_reset();
	op(FEW);
	size_t a = gs_stack_peak();
	gs_stack_reset();
	op(MANY);
	size_t b = gs_stack_peak();
	gs_assert(!gs_stack_more(a, b), msg);
	gs_reach("end");
}
static Bytes pick(const Bytes &b, size_t n) { return Bytes(b.begin(), b.begin() + n); }

ENTRY c22_kuz_imit()
{
	auto key = make_shared<kz::Key>(make_shared<RawKeyData>(RFC_K1, RFC_K2));
	auto last = symB("last");
	flat([&](size_t n) {
		vector<uint64_t> w(2 * n, 0x0123456789abcdef);
		w[2 * n - 2] = last.lo;
		w[2 * n - 1] = last.hi;
		kz::Imit(make_shared<kz::StMemory>(w), key).value();
	}, "the MAC of a long stream does not nest calls with its length");
}
ENTRY c22_ctr_walk()
{
	auto key = make_shared<kz::Key>(make_shared<RawKeyData>(RFC_K1, RFC_K2));
	auto iv = gs_sym<uint64_t>("iv");
	flat([&](size_t n) {
		auto st = make_shared<kz::StCTREncrypted>(make_shared<kz::StMemory>(vector<uint64_t>(2 * n, 5)), key, iv);
		auto it = st->iter();
		size_t i = 0;
		while (auto nx = it->next()) {
			it = nx;
			i++;
		}
		gs_assert_eq(i, n - 1, "blocks");
	}, "walking a long encrypted stream does not nest calls with its length");
}
ENTRY c22_ctr_value()
{
	auto key = make_shared<kz::Key>(make_shared<RawKeyData>(RFC_K1, RFC_K2));
	flat([&](size_t n) {
		auto st = make_shared<kz::StCTREncrypted>(make_shared<kz::StMemory>(vector<uint64_t>(2 * n, 5)), key, 7);
		auto it = st->iter();
		for (size_t i = 1; i < n; i++) it = it->next();
		it->value();
		it->last();
		it->size();
	}, "a late block of a long encrypted stream does not nest calls with its position");
}
// the first block is kept until the rest has been released, or all of them are
template<class MK> static void holdWalk(MK mk)
{
	int keep = gs_choice_(3, "keep");
	flat([&](size_t n) {
		auto st = mk(n);
		shared_ptr<const kz::Iterator> first = st->iter(), it = first;
		vector<shared_ptr<const kz::Iterator>> all;
		st.reset();
		while (auto nx = it->next()) {
			if (keep == 1) all.push_back(it);
			it = nx;
			if (keep == 2) it->last();
		}
		it.reset();
		all.clear();
		gs_assert(!first->last(), "the first block is not the last");
		first.reset();
	}, "releasing the blocks of a long stream does not nest calls with its length");
}
ENTRY c22_mem_hold()
{
	auto x = gs_sym<uint64_t>("x");
	holdWalk([&](size_t n) { return make_shared<kz::StMemory>(vector<uint64_t>(2 * n, x)); });
}
ENTRY c22_ctr_hold()
{
	auto key = make_shared<kz::Key>(make_shared<RawKeyData>(RFC_K1, RFC_K2));
	auto iv = gs_sym<uint64_t>("iv");
	holdWalk([&](size_t n) { return make_shared<kz::StCTREncrypted>(make_shared<kz::StMemory>(vector<uint64_t>(2 * n, 5)), key, iv); });
}
ENTRY c22_mag_imit()
{
	auto key = anyKey();
	auto m = gs_bytes(8 * MANY, "msg");
	flat([&](size_t n) { mg::Imit(make_shared<VecSource>(pick(m, 8 * n)), key).value(); },
		"the MAC of a long source does not nest calls with its length");
}
ENTRY c22_data_imit()
{
	auto key = anyKey();
	auto m = gs_bytes(8 * MANY, "msg");
	flat([&](size_t n) { g8::DataImit(pick(m, 8 * n), key).value(); },
		"the imitation insert of long data does not nest calls with its length");
}
// sinks, everything in one write and in one write for each block
template<class MK> static void sinkFlat(MK mk)
{
	bool bits = gs_choice_(2, "bits");
	auto m = gs_bytes(8 * MANY, "msg");
	flat([&](size_t n) {
		auto d = toS(pick(m, 8 * n));
		shared_ptr<const Sink> s = mk(), first = s;
		if (bits) for (size_t i = 0; i < n; i++) s = s->write(SBytes(d.begin() + 8 * i, d.begin() + 8 * i + 8));
		else s = s->write(d);
		s->finalize();
		s.reset();
		first->finalize();
		first.reset();
	}, "writing a long message does not nest calls with its length");
}
// a sink that forgets
class NullSink final : public Sink {
public:
	shared_ptr<const Sink> write(const SBytes &) const override { return make_shared<NullSink>(); }
	shared_ptr<const Sink> finalize() const override { return make_shared<NullSink>(); }
};
ENTRY c22_sink_gost89()
{
	auto key = anyKey();
	auto iv = gs_sym<uint64_t>("iv");
	sinkFlat([&]() { return make_shared<g8::CFBSink>(make_shared<NullSink>(), key, iv); });
}
ENTRY c22_sink_magma()
{
	auto key = anyKey();
	auto iv = gs_sym<uint64_t>("iv"), iv2 = gs_sym<uint64_t>("iv2");
	sinkFlat([&]() { return make_shared<mg::CFBSink>(make_shared<NullSink>(), key, iv, iv2); });
}
ENTRY c22_sink_ecb()
{
	auto key = anyKey();
	sinkFlat([&]() { return make_shared<mg::ECBSink>(make_shared<NullSink>(), key); });
}
template<class MK> static void sourceFlat(MK mk)
{
	bool bits = gs_choice_(2, "bits");
	auto m = gs_bytes(8 * MANY, "msg");
	flat([&](size_t n) {
		shared_ptr<const Source> s = mk(pick(m, 8 * n)), first = s;
		if (!bits) s = s->read(8 * n + 1).second;
		else for (size_t i = 0; i <= n; i++) s = s->read(8).second;
		s.reset();
		first->read(8);
		first.reset();
	}, "reading a long message does not nest calls with its length");
}
ENTRY c22_source_gost89()
{
	auto key = anyKey();
	auto iv = gs_sym<uint64_t>("iv");
	sourceFlat([&](const Bytes &b) { return make_shared<g8::CFBSource>(make_shared<VecSource>(b), key, iv); });
}
ENTRY c22_source_magma()
{
	auto key = anyKey();
	auto iv = gs_sym<uint64_t>("iv"), iv2 = gs_sym<uint64_t>("iv2");
	sourceFlat([&](const Bytes &b) { return make_shared<mg::CFBSource>(make_shared<VecSource>(b), key, iv, iv2); });
}
ENTRY c22_source_ecb()
{
	auto key = anyKey();
	sourceFlat([&](const Bytes &b) { return make_shared<mg::ECBSource>(make_shared<VecSource>(b), key); });
}
