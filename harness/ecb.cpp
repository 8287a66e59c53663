#include "common.h"
#include <goost/gost89/ECBSink.h>
#include <goost/gost89/ECBSource.h>
#include <goost/magma/Container.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>
#include <stdexcept>
using namespace goost;
using namespace std;

#ifndef MAXBLOCKS
#define MAXBLOCKS 4
#endif
static Bytes part(const Bytes &b, size_t from, size_t to) { return Bytes(b.begin() + from, b.begin() + to); }

// ------------------------------------------------------------------ sink
ENTRY c10_sink_blocks()
{
	auto k = magKey();
	size_t n = 8 * gs_choice_(MAXBLOCKS + 1, "blocks"), a = 8 * gs_choice_(n / 8 + 1, "cut");
	auto m = gs_bytes(n, "msg");
	shared_ptr<const Sink> s = make_shared<magma::ECBSink>(make_shared<CollectSink>(), k.key);
	s = s->write(toS(part(m, 0, a)))->write(toS(part(m, a, n)));
	auto out = collected(s->finalize());
	assertBytes(out, ref::ecb(k.ref, m, true), "every block encrypted on its own, in order");
	emitBytes("c", out);
	gs_reach("end");
}
// anything that is not whole blocks is refused, and nothing else is
ENTRY c10_sink_unaligned()
{
	auto k = magKeyZ();
	size_t n = gs_choice_(8 * MAXBLOCKS + 1, "len");
	auto m = gs_bytes(n, "msg");
	auto s = make_shared<magma::ECBSink>(make_shared<CollectSink>(), k.key);
	bool thrown = false;
	try {
		auto t = s->write(toS(m));
		assertBytes(collected(t->finalize()), ref::ecb(k.ref, m, true), "accepted data is encrypted");
		gs_reach("accepted");
	} catch (const runtime_error &) {
		thrown = true;
		gs_reach("refused");
	}
	gs_assert(thrown == (n % 8 != 0), "write() refuses exactly the lengths that are not a multiple of 8");
	// the refused call left the sink as it was
	auto again = gs_bytes(8, "again");
	assertBytes(collected(s->write(toS(again))->finalize()), ref::ecb(k.ref, again, true), "the sink stays usable");
}
// ------------------------------------------------------------------ source
ENTRY c10_source_blocks()
{
	auto k = magKey();
	size_t n = 8 * gs_choice_(MAXBLOCKS + 1, "blocks"), sz = 8 + gs_choice_(3, "size") * 5;
	auto c = gs_bytes(n, "ct");
	shared_ptr<const Source> s = make_shared<magma::ECBSource>(make_shared<VecSource>(c), k.key);
	auto out = drain(s, sz);
	assertBytes(out, ref::ecb(k.ref, c, false), "every block decrypted on its own, in order");
	emitBytes("p", out);
	gs_reach("end");
}
ENTRY c10_source_unaligned()
{
	auto k = magKeyZ();
	static const size_t large[] = {13, 16, 17, 24, 31, 100};
	size_t n = gs_choice_(8 * 3 + 8, "len"), sz = gs_choice_(16, "size");
	if (sz >= 10) sz = large[sz - 10];
	auto c = gs_bytes(n, "ct");
	shared_ptr<const Source> s = make_shared<magma::ECBSource>(make_shared<VecSource>(c), k.key);
	Bytes out;
	bool thrown = false;
	try {
		while (true) {
			auto r = s->read(sz);
			if (r.first.empty()) break;
			for (auto b : r.first) out.push_back(static_cast<unsigned char>(b));
			s = r.second;
		}
	} catch (const runtime_error &) {
		thrown = true;
	}
	if (sz < 8) {
		gs_assert(thrown, "read() of less than a block is refused");
		gs_assert_eq(out.size(), 0, "nothing is produced");
		gs_reach("small read");
	} else {
		gs_assert(thrown == (n % 8 != 0), "a partial last block is reported, whole blocks are not");
		assertBytes(out, ref::ecb(k.ref, part(c, 0, n / 8 * 8), false), "the whole blocks before it are decrypted");
		gs_reach("large read");
	}
}
// ------------------------------------------------------------------ round trip
ENTRY c10_round()
{
	auto k = magKey();
	size_t n = 8 * gs_choice_(MAXBLOCKS + 1, "blocks");
	auto m = gs_bytes(n, "msg");
	auto s = magma::ECBSink(make_shared<CollectSink>(), k.key).write(toS(m));
	auto c = collected(s->finalize());
	auto out = drain(make_shared<magma::ECBSource>(make_shared<VecSource>(c), k.key), 8);
	assertBytes(out, m, "decryption restores the data");
	gs_reach("end");
}
// the 28147-89 names are the same mode
ENTRY c10_gost89()
{
	auto k = magKey();
	auto m = gs_bytes(16, "msg");
	auto c = collected(gost89::ECBSink(make_shared<CollectSink>(), k.key).write(toS(m))->finalize());
	assertBytes(c, ref::ecb(k.ref, m, true), "gost89::ECBSink");
	auto d = drain(make_shared<gost89::ECBSource>(make_shared<VecSource>(m), k.key), 8);
	assertBytes(d, ref::ecb(k.ref, m, false), "gost89::ECBSource");
	gs_reach("end");
}

// ------------------------------------------------------------------ key containers
class AnyContainer final : public magma::Container {
public:
	AnyContainer(const Bytes &k, const Bytes &m, const Bytes &s) : k(k), m(m), s(s) {}
	SBytes key() const override { return toS(k); }
	SBytes mask() const override { return toS(m); }
	SBytes sbox() const override { return toS(s); }
private:
	const Bytes k, m, s;
};
// The key words are the big-endian words of the container's key bytes, the substitution is the
// container's 64-byte table: decryption is that of the same key given directly.
ENTRY c17_container()
{
	auto kb = gs_bytes(32, "key"), sb = gs_bytes(64, "sbox"), mask = Bytes(32, 0);
	uint32_t w[8];
	for (int i = 0; i < 8; i++)
		w[i] = uint32_t(kb[4 * i]) << 24 | uint32_t(kb[4 * i + 1]) << 16 | uint32_t(kb[4 * i + 2]) << 8 | kb[4 * i + 3];
	auto k = magKeyFrom(w, sb.data());
	size_t n = 8 * gs_choice_(3, "blocks");
	auto c = gs_bytes(n, "ct");
	auto src = make_shared<magma::ECBSource>(
		make_shared<VecSource>(c), static_pointer_cast<const magma::Container>(make_shared<AnyContainer>(kb, mask, sb)));
	auto out = drain(src, 8);
	assertBytes(out, ref::ecb(k.ref, c, false), "container key decrypts like the key it holds");
	auto direct = drain(make_shared<magma::ECBSource>(make_shared<VecSource>(c), k.key), 8);
	assertBytes(out, direct, "container key and direct key agree");
	emitBytes("p", out);
	gs_reach("end");
}
ENTRY c17_container_round()
{
	auto kb = gs_bytes(32, "key"), sb = gs_bytes(64, "sbox"), mask = Bytes(32, 0);
	uint32_t w[8];
	for (int i = 0; i < 8; i++)
		w[i] = uint32_t(kb[4 * i]) << 24 | uint32_t(kb[4 * i + 1]) << 16 | uint32_t(kb[4 * i + 2]) << 8 | kb[4 * i + 3];
	auto k = magKeyFrom(w, sb.data());
	auto m = gs_bytes(16, "msg");
	auto c = collected(magma::ECBSink(make_shared<CollectSink>(), k.key).write(toS(m))->finalize());
	auto src = make_shared<magma::ECBSource>(
		make_shared<VecSource>(c), static_pointer_cast<const magma::Container>(make_shared<AnyContainer>(kb, mask, sb)));
	assertBytes(drain(src, 8), m, "what was encrypted under the same key and substitution is restored");
	gs_reach("end");
}
