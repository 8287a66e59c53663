// Every length up to LENS bytes, and every size of the first piece, over any round function.
#include "anykey.h"
#include <goost/gost89/CFBSink.h>
#include <goost/gost89/CFBSource.h>
#include <goost/gost89/DataImit.h>
#include <goost/magma/CFBSink.h>
#include <goost/magma/CFBSource.h>
#include <goost/magma/ECBSink.h>
#include <goost/magma/ECBSource.h>
#include <goost/magma/Imit.h>
#include <goost/magma/BlkRaw.h>
using namespace goost;
using namespace std;
namespace mg = goost::magma;
namespace g8 = goost::gost89;
#ifdef THOROUGH
#define LENS 520
#else
#define LENS 264
#endif
typedef shared_ptr<const mg::Key> KeyP;
static Bytes part(const Bytes &b, size_t from, size_t to) { return Bytes(b.begin() + from, b.begin() + to); }
static vector<uint64_t> ivs(size_t n)
{
	vector<uint64_t> v(n);
	gs_symbolic(v.data(), 8 * n, "iv");
	return v;
}
// the whole in one piece
template<class MK> static void sinkLens(size_t regs, MK mk)
{
	auto iv = ivs(regs);
	auto m = gs_bytes(gs_choice_(LENS + 1, "len"), "msg");
	auto s = mk(make_shared<CollectSink>(), make_shared<AnyKey>(), iv)->write(toS(m))->finalize();
	assertBytes(collected(s), ref::cfb(RefAnyKey(), iv, m, true), "ciphertext of a message of any length");
	gs_reach("end");
}
// a first piece of every size, then the rest of a message of some lengths
template<class MK> static void sinkFirst(size_t regs, MK mk)
{
	static const size_t total[] = {LENS, LENS - 3};
	auto iv = ivs(regs);
	size_t n = total[gs_choice_(2, "total")], c = gs_choice_(n + 1, "first");
	auto m = gs_bytes(n, "msg");
	auto s = mk(make_shared<CollectSink>(), make_shared<AnyKey>(), iv)->write(toS(part(m, 0, c)))->write(toS(part(m, c, n)))->finalize();
	assertBytes(collected(s), ref::cfb(RefAnyKey(), iv, m, true), "ciphertext of a message in two pieces");
	gs_reach("end");
}
template<class MK> static void sourceLens(size_t regs, MK mk)
{
	auto iv = ivs(regs);
	auto c = gs_bytes(gs_choice_(LENS + 1, "len"), "ct");
	auto r = mk(make_shared<VecSource>(c), make_shared<AnyKey>(), iv)->read(LENS + 8);
	Bytes out;
	for (auto b : r.first) out.push_back(static_cast<unsigned char>(b));
	assertBytes(out, ref::cfb(RefAnyKey(), iv, c, false), "plaintext of a message of any length");
	gs_assert_eq(r.second->read(8).first.size(), 0, "the message has ended");
	gs_reach("end");
}
template<class MK> static void sourceFirst(size_t regs, MK mk)
{
	static const size_t total[] = {LENS, LENS - 3};
	auto iv = ivs(regs);
	size_t n = total[gs_choice_(2, "total")], f = gs_choice_(n + 1, "first");
	auto c = gs_bytes(n, "ct");
	auto a = mk(make_shared<VecSource>(c), make_shared<AnyKey>(), iv)->read(f);
	auto b = a.second->read(n);
	Bytes out;
	for (auto x : a.first) out.push_back(static_cast<unsigned char>(x));
	for (auto x : b.first) out.push_back(static_cast<unsigned char>(x));
	gs_assert_eq(a.first.size(), f, "a read yields what was asked for");
	assertBytes(out, ref::cfb(RefAnyKey(), iv, c, false), "plaintext in two reads");
	gs_reach("end");
}
ENTRY c11_lens() { sinkLens(1, [](shared_ptr<const Sink> s, KeyP k, vector<uint64_t> r) { return make_shared<g8::CFBSink>(s, k, r[0]); }); }
ENTRY c11_first() { sinkFirst(1, [](shared_ptr<const Sink> s, KeyP k, vector<uint64_t> r) { return make_shared<g8::CFBSink>(s, k, r[0]); }); }
ENTRY c13_lens() { sinkLens(2, [](shared_ptr<const Sink> s, KeyP k, vector<uint64_t> r) { return make_shared<mg::CFBSink>(s, k, r[0], r[1]); }); }
ENTRY c13_first() { sinkFirst(2, [](shared_ptr<const Sink> s, KeyP k, vector<uint64_t> r) { return make_shared<mg::CFBSink>(s, k, r[0], r[1]); }); }
ENTRY c12_lens() { sourceLens(1, [](shared_ptr<const Source> s, KeyP k, vector<uint64_t> r) { return make_shared<g8::CFBSource>(s, k, r[0]); }); }
ENTRY c12_first() { sourceFirst(1, [](shared_ptr<const Source> s, KeyP k, vector<uint64_t> r) { return make_shared<g8::CFBSource>(s, k, r[0]); }); }
ENTRY c14_lens() { sourceLens(2, [](shared_ptr<const Source> s, KeyP k, vector<uint64_t> r) { return make_shared<mg::CFBSource>(s, k, r[0], r[1]); }); }
ENTRY c14_first() { sourceFirst(2, [](shared_ptr<const Source> s, KeyP k, vector<uint64_t> r) { return make_shared<mg::CFBSource>(s, k, r[0], r[1]); }); }
ENTRY c10_lens()
{
	size_t n = gs_choice_(LENS / 12 + 1, "blocks"), c = gs_choice_(n + 1, "first"), what = gs_choice_(2, "what");
	auto m = gs_bytes(8 * n, "msg");
	Bytes out;
	if (what) {
		auto s = mg::ECBSink(make_shared<CollectSink>(), make_shared<AnyKey>()).write(toS(part(m, 0, 8 * c)));
		out = collected(s->write(toS(part(m, 8 * c, 8 * n)))->finalize());
	} else {
		shared_ptr<const Source> s = make_shared<mg::ECBSource>(make_shared<VecSource>(m), make_shared<AnyKey>());
		for (size_t want : {8 * c, 8 * (n - c) + 8}) {
			if (!want) continue;
			for (size_t got = 0, i = 0; got < want && i <= n; i++) {	// a source may yield less than it is asked for
				auto r = s->read(want - got);
				gs_assert(r.first.size() <= want - got, "read() returned more than was asked for");
				if (r.first.empty()) break;
				for (auto x : r.first) out.push_back(static_cast<unsigned char>(x));
				got += r.first.size();
				s = r.second;
			}
		}
	}
	assertBytes(out, ref::ecb(RefAnyKey(), m, what), "ECB message of any number of blocks in two pieces");
	gs_reach("end");
}
ENTRY c15_lens()
{
	auto m = gs_bytes(gs_choice_(LENS + 1, "len"), "msg");
	gs_assert_eq(num(mg::Imit(make_shared<VecSource>(m), anyLazyKey()).value()), ref::magMac(RefAnyLazyKey(), m), "MAC of a message of any length");
	gs_reach("end");
}
ENTRY c16_lens()
{
	auto m = gs_bytes(gs_choice_(LENS + 1, "len"), "msg");
	auto v = g8::DataImit(m, anyLazyKey()).value();
	gs_assert_eq(v.size(), 8, "size");
	gs_assert_eq(ref::loadLE(v.data()), ref::gostImit(RefAnyLazyKey(), m), "imitation insert of data of any length");
	gs_reach("end");
}
