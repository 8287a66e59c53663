// Cipher feedback, once for each of the two variants (see cfb_gost89.cpp and cfb_magma.cpp, which define
// NS, REG (registers in blocks), MKSINK/MKSOURCE and the entry names).
#include "common.h"
using namespace std;
using namespace goost;

#ifndef MAXLEN
#define MAXLEN 17	// longest message with every division in two
#endif
#ifndef MAXLEN3
#define MAXLEN3 10	// longest message with every division in three
#endif
#ifndef MAXBLOCKS
#define MAXBLOCKS 6	// longest message, in blocks
#endif

static vector<uint64_t> symIv()
{
	vector<uint64_t> r(REG);
	gs_symbolic(r.data(), REG * 8, "iv");
	return r;
}
static shared_ptr<const Sink> mkSink(const shared_ptr<const Sink> &s, const MagKey &k, const vector<uint64_t> &r)
{
	return make_shared<NS::CFBSink>(s, k.key, MKREG(r));
}
static shared_ptr<const Source> mkSource(const shared_ptr<const Source> &s, const MagKey &k, const vector<uint64_t> &r)
{
	return make_shared<NS::CFBSource>(s, k.key, MKREG(r));
}
static Bytes part(const Bytes &b, size_t from, size_t to) { return Bytes(b.begin() + from, b.begin() + to); }
static Bytes encryptAll(const MagKey &k, const vector<uint64_t> &iv, const Bytes &m)
{
	return collected(mkSink(make_shared<CollectSink>(), k, iv)->write(toS(m))->finalize());
}
static Bytes decryptAll(const MagKey &k, const vector<uint64_t> &iv, const Bytes &c, size_t chunk)
{
	return drain(mkSource(make_shared<VecSource>(c), k, iv), chunk);
}

// ------------------------------------------------------------------ encryption
// every message of every length up to the bound, in one piece
ENTRY SINK(_whole)()
{
	auto k = magKey();
	auto iv = symIv();
	size_t n = gs_choice_(MAXLEN + 1, "len");
	auto m = gs_bytes(n, "msg");
	auto out = encryptAll(k, iv, m);
	assertBytes(out, ref::cfb(k.ref, iv, m, true), "ciphertext is the cipher feedback of the message, same length");
	emitBytes("c", out);
	gs_reach("end");
}
// longer messages, around the block boundaries
ENTRY SINK(_long)()
{
	auto k = magKeyZ();
	auto iv = symIv();
	size_t n = 8 * (1 + gs_choice_(MAXBLOCKS, "blocks")) + gs_choice_(3, "over") - 1;
	auto m = gs_bytes(n, "msg");
	auto out = encryptAll(k, iv, m);
	assertBytes(out, ref::cfb(k.ref, iv, m, true), "ciphertext of a longer message");
	gs_reach("end");
}
// the division of the message into write() calls does not matter
ENTRY SINK(_chunks2)()
{
	auto k = magKey();
	auto iv = symIv();
	size_t n = gs_choice_(MAXLEN + 1, "len"), a = gs_choice_(n + 1, "cut");
	auto m = gs_bytes(n, "msg");
	auto s = mkSink(make_shared<CollectSink>(), k, iv)->write(toS(part(m, 0, a)))->write(toS(part(m, a, n)));
	assertBytes(collected(s->finalize()), ref::cfb(k.ref, iv, m, true), "ciphertext does not depend on chunking");
	gs_reach("end");
}
ENTRY SINK(_chunks3)()
{
	auto k = magKey();
	auto iv = symIv();
	size_t n = gs_choice_(MAXLEN3 + 1, "len"), b = gs_choice_(n + 1, "cut2"), a = gs_choice_(b + 1, "cut1");
	auto m = gs_bytes(n, "msg");
	auto s = mkSink(make_shared<CollectSink>(), k, iv)
		->write(toS(part(m, 0, a)))->write(toS(part(m, a, b)))->write(toS(part(m, b, n)));
	assertBytes(collected(s->finalize()), ref::cfb(k.ref, iv, m, true), "ciphertext does not depend on chunking");
	gs_reach("end");
}
// byte by byte
ENTRY SINK(_bytewise)()
{
	auto k = magKey();
	auto iv = symIv();
	size_t n = 19;
	auto m = gs_bytes(n, "msg");
	auto s = mkSink(make_shared<CollectSink>(), k, iv);
	for (size_t i = 0; i < n; i++) {
		s = s->write(toS(part(m, i, i + 1)));
		if (gs_choice_(2, "empty") && i % 5 == 0) s = s->write({});
	}
	assertBytes(collected(s->finalize()), ref::cfb(k.ref, iv, m, true), "ciphertext does not depend on chunking");
	gs_reach("end");
}
// step: from an arbitrary state (any register, any pending bytes), any write; the observable
// behaviour afterwards is that of the stream with the pending bytes in front
ENTRY SINK(_step)()
{
	auto k = magKey();
	auto iv = symIv();
	size_t np = gs_choice_(8, "pending"), n = gs_choice_(11, "len"), t = gs_choice_(3, "tail") * 4;
	auto m = gs_bytes(np + n + t, "msg");
	auto s0 = make_shared<NS::CFBSink>(make_shared<CollectSink>(), k.key, MKREG(iv), toS(part(m, 0, np)));
	auto s = s0->write(toS(part(m, np, np + n)))->write(toS(part(m, np + n, np + n + t)));
	assertBytes(collected(s->finalize()), ref::cfb(k.ref, iv, m, true), "write() continues any state");
	gs_reach("end");
}
// every full block goes to the sink below as soon as it is complete; the tail on finalize()
class ProbeSink final : public Sink {
public:
	ProbeSink(const shared_ptr<Bytes> &log) : log(log) {}
	shared_ptr<const Sink> write(const SBytes &d) const override
	{
		for (auto b : d) log->push_back(static_cast<unsigned char>(b));
		return make_shared<ProbeSink>(log);
	}
	shared_ptr<const Sink> finalize() const override { return make_shared<ProbeSink>(log); }
	const shared_ptr<Bytes> log;
};
ENTRY SINK(_streaming)()
{
	auto k = magKeyZ();
	auto iv = symIv();
	size_t n = gs_choice_(MAXLEN + 1, "len");
	auto m = gs_bytes(n, "msg");
	auto log = make_shared<Bytes>();
	auto want = ref::cfb(k.ref, iv, m, true);
	auto s = mkSink(make_shared<ProbeSink>(log), k, iv)->write(toS(m));
	assertBytes(*log, part(want, 0, n / 8 * 8), "complete blocks are passed on by write()");
	s = s->finalize();
	assertBytes(*log, want, "the tail is passed on by finalize()");
	gs_reach("end");
}

// ------------------------------------------------------------------ decryption
ENTRY SOURCE(_whole)()
{
	auto k = magKey();
	auto iv = symIv();
	size_t n = gs_choice_(MAXLEN + 1, "len"), sz = n + gs_choice_(2, "more");
	auto c = gs_bytes(n, "ct");
	auto r = mkSource(make_shared<VecSource>(c), k, iv)->read(sz);
	assertBytes(fromS(r.first), ref::cfb(k.ref, iv, c, false), "plaintext is the cipher feedback decryption");
	gs_assert(r.second->read(8).first.empty(), "nothing after the end");
	emitBytes("p", fromS(r.first));
	gs_reach("end");
}
ENTRY SOURCE(_long)()
{
	auto k = magKeyZ();
	auto iv = symIv();
	size_t n = 8 * (1 + gs_choice_(MAXBLOCKS, "blocks")) + gs_choice_(3, "over") - 1;
	auto c = gs_bytes(n, "ct");
	auto out = decryptAll(k, iv, c, 13);
	assertBytes(out, ref::cfb(k.ref, iv, c, false), "plaintext of a longer message");
	gs_reach("end");
}
// the sizes asked for do not matter
ENTRY SOURCE(_chunks)()
{
	auto k = magKey();
	auto iv = symIv();
	size_t n = gs_choice_(MAXLEN + 1, "len"), chunk = 1 + gs_choice_(MAXLEN + 1, "chunk");
	auto c = gs_bytes(n, "ct");
	assertBytes(decryptAll(k, iv, c, chunk), ref::cfb(k.ref, iv, c, false), "plaintext does not depend on the read sizes");
	gs_reach("end");
}
ENTRY SOURCE(_chunks3)()
{
	auto k = magKey();
	auto iv = symIv();
	size_t n = gs_choice_(MAXLEN3 + 1, "len"), a = gs_choice_(n + 1, "r1"), b = gs_choice_(n + 1, "r2");
	auto c = gs_bytes(n, "ct");
	auto want = ref::cfb(k.ref, iv, c, false);
	auto r1 = mkSource(make_shared<VecSource>(c), k, iv)->read(a);
	size_t e1 = min(a, n), e2 = min(e1 + b, n);
	assertBytes(fromS(r1.first), part(want, 0, e1), "first read");
	auto r2 = r1.second->read(b);
	assertBytes(fromS(r2.first), part(want, e1, e2), "second read");
	auto r3 = r2.second->read(n + 8);
	assertBytes(fromS(r3.first), part(want, e2, n), "the rest");
	gs_reach("end");
}
// step: from an arbitrary state (any register, any decrypted bytes left over), any read
ENTRY SOURCE(_step)()
{
	auto k = magKey();
	auto iv = symIv();
	size_t np = gs_choice_(9, "pending"), n = gs_choice_(3, "len") * 5, sz = gs_choice_(12, "size");
	auto m = gs_bytes(np, "left");
	auto c = gs_bytes(n, "ct");
	auto s0 = make_shared<NS::CFBSource>(make_shared<VecSource>(c), k.key, MKREG(iv), toS(m));
	auto want = m;
	for (auto b : ref::cfb(k.ref, iv, c, false)) want.push_back(b);
	auto r = s0->read(sz);
	size_t e = min(sz, want.size());
	assertBytes(fromS(r.first), part(want, 0, e), "read() continues any state");
	assertBytes(drain(r.second, 7), part(want, e, want.size()), "and leaves the rest");
	gs_reach("end");
}
// a read of nothing changes nothing
ENTRY SOURCE(_zero)()
{
	auto k = magKeyZ();
	auto iv = symIv();
	auto c = gs_bytes(11, "ct");
	auto want = ref::cfb(k.ref, iv, c, false);
	auto r0 = mkSource(make_shared<VecSource>(c), k, iv)->read(0);
	gs_assert(r0.first.empty(), "read(0) returns nothing");
	auto r1 = r0.second->read(3);
	assertBytes(fromS(r1.first), part(want, 0, 3), "after read(0)");
	auto r2 = r1.second->read(0);
	gs_assert(r2.first.empty(), "read(0) returns nothing");
	assertBytes(drain(r2.second, 5), part(want, 3, 11), "after read(0) in the middle");
	gs_reach("end");
}

// ------------------------------------------------------------------ round trip
// decrypting what was encrypted restores the message for every key, substitution, IV, length and chunking
ENTRY ROUND(_source)()
{
	auto k = magKey();
	auto iv = symIv();
	size_t n = gs_choice_(MAXLEN + 1, "len"), w = 1 + gs_choice_(4, "w") * 3, r = 1 + gs_choice_(4, "r") * 3;
	auto m = gs_bytes(n, "msg");
	auto s = mkSink(make_shared<CollectSink>(), k, iv);
	for (size_t i = 0; i < n; i += w) s = s->write(toS(part(m, i, min(n, i + w))));
	auto c = collected(s->finalize());
	gs_assert_eq(c.size(), n, "the ciphertext is as long as the message");
	assertBytes(decryptAll(k, iv, c, r), m, "decryption restores the message");
	gs_reach("end");
}
