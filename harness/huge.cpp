// Reads that ask for far more than there is: sizes past the range of 31 and 32 bits. The data is small.
#include "anykey.h"
#include <goost/gost89/CFBSource.h>
#include <goost/magma/CFBSource.h>
#include <goost/magma/ECBSource.h>
using namespace goost;
using namespace std;
namespace mg = goost::magma;
namespace g8 = goost::gost89;
#define N 29
static size_t huge(const char *name)
{
	static const size_t s[] = {(1ull << 31) - 1, 1ull << 31, (1ull << 32) - 1, 1ull << 32, (1ull << 32) + 5};
	return s[gs_choice_(5, name)];
}
static Bytes part(const Bytes &b, size_t from, size_t to) { return Bytes(b.begin() + from, b.begin() + to); }
// a source that does not care what it is asked for
class Steps final : public Source {
public:
	Steps(const Bytes &d, size_t pos) : data(d), pos(pos) {}
	pair<SBytes, shared_ptr<const Source>> read(size_t size) const override
	{
		size_t e = data.size() - pos < size ? data.size() : pos + size;
		return {toS(part(data, pos, e)), make_shared<Steps>(data, e)};
	}
private:
	const Bytes data;
	const size_t pos;
};
static void hugeReads(shared_ptr<const Source> s, const Bytes &want)
{
	size_t a = 0;
	switch (gs_choice_(3, "before")) {
	case 1:
		a = 3;
		break;
	case 2:
		a = 16;
		break;
	}
	if (a) {
		auto r = s->read(a);
		assertBytes(fromS(r.first), part(want, 0, a), "a part of the data");
		s = r.second;
	}
	auto r = s->read(huge("size"));
	assertBytes(fromS(r.first), part(want, a, want.size()), "asking for far more than there is gives all there is");
	gs_assert(r.second->read(8).first.empty(), "and leaves nothing");
	gs_reach("end");
}
ENTRY c12_huge()
{
	auto iv = gs_sym<uint64_t>("iv");
	auto c = gs_bytes(N, "ct");
	hugeReads(make_shared<g8::CFBSource>(make_shared<Steps>(c, 0), make_shared<AnyKey>(), iv), ref::cfb(RefAnyKey(), {iv}, c, false));
}
ENTRY c14_huge()
{
	auto iv = gs_sym<uint64_t>("iv"), iv2 = gs_sym<uint64_t>("iv2");
	auto c = gs_bytes(N, "ct");
	hugeReads(make_shared<mg::CFBSource>(make_shared<Steps>(c, 0), make_shared<AnyKey>(), iv, iv2), ref::cfb(RefAnyKey(), {iv, iv2}, c, false));
}
ENTRY c10_huge()
{
	auto c = gs_bytes(24, "ct");
	auto want = ref::ecb(RefAnyKey(), c, false);
	shared_ptr<const Source> s = make_shared<mg::ECBSource>(make_shared<Steps>(c, 0), make_shared<AnyKey>());
	Bytes out;
	for (int i = 0; i < 4; i++) {
		auto r = s->read(huge(i % 2 ? "size1" : "size0"));
		if (r.first.empty()) break;
		for (auto b : fromS(r.first)) out.push_back(b);
		s = r.second;
	}
	assertBytes(out, want, "asking for far more than a block");
	gs_reach("end");
}
