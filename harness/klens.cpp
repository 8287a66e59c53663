// Streams of the 128-bit cipher of every length up to KLENS words, the key fixed where one is needed.
#include "common.h"
#include <goost/kuznyechik/BlkEncrypted.h>
#include <goost/kuznyechik/Imit.h>
#include <goost/kuznyechik/Iterator.h>
#include <goost/kuznyechik/StCTREncrypted.h>
#include <goost/kuznyechik/StMemory.h>
using namespace goost;
using namespace std;
namespace kz = goost::kuznyechik;
#ifdef THOROUGH
#define KLENS 263
#define CLENS 60
#define MLENS 44
#else
#define KLENS 133
#define CLENS 24
#define MLENS 14
#endif
static const ref::B128 RFC_K1{0x0011223344556677ull, 0x8899aabbccddeeffull}, RFC_K2{0x0123456789abcdefull, 0xfedcba9876543210ull};
static vector<uint64_t> symWords(size_t n)
{
	vector<uint64_t> w(n);
	if (n) gs_symbolic(w.data(), 8 * n, "words");
	return w;
}
static size_t blocks(const shared_ptr<const kz::Iterator> &first, const vector<uint64_t> &want)
{
	size_t pos = 0;
	auto it = first;
	for (; it && pos < want.size(); it = it->next(), pos += 2) {
		const bool half = pos + 1 == want.size();
		auto v = it->value();
		gs_assert_eq(v.first, want[pos], "low word of a block in a stream of any length");
		if (!half) gs_assert_eq(v.second, want[pos + 1], "high word of a block in a stream of any length");
		gs_assert_eq(it->size(), half ? 8 : 16, "size of a block in a stream of any length");
		gs_assert(it->last() == (pos + 2 >= want.size()), "last() exactly at the last block");
	}
	gs_assert(!it, "a stream ends after its last block");
	return pos;
}
ENTRY c06_lens()
{
	size_t n = gs_choice_(KLENS + 1, "words");
	auto w = symWords(n);
	gs_assert_eq(blocks(make_shared<kz::StMemory>(w)->iter(), w), (n + 1) / 2 * 2, "every block of the stream");
	gs_reach("end");
}
// an iterator from any offset, and two iterators over one stream that take turns
ENTRY c06_lens_offset()
{
	size_t n = 1 + gs_choice_(24, "words"), from = 2 * gs_choice_(13, "from");
	auto w = symWords(n);
	auto st = make_shared<kz::StMemory>(w);
	auto it = st->next_iter(8 * from);
	if (from >= n) gs_assert(!it, "no block past the end");
	else blocks(it, vector<uint64_t>(w.begin() + from, w.end()));
	auto a = st->iter(), b = st->iter();
	for (size_t pos = 0; pos < n && a && b; pos += 2) {
		gs_assert_eq(a->value().first, w[pos], "two iterators do not disturb each other");
		auto a2 = a->next();
		gs_assert_eq(b->value().first, w[pos], "two iterators do not disturb each other");
		gs_assert_eq(a->value().first, w[pos], "an iterator stays where it is");
		b = b->next();
		a = a2;
	}
	gs_assert(!a && !b, "both end");
	gs_reach("end");
}
ENTRY c03_lens()
{
	static const uint64_t iv = 0x1234567890abcef0ull;
	auto key = make_shared<kz::Key>(make_shared<RawKeyData>(RFC_K1, RFC_K2));
	ref::Kuz rk(RFC_K1, RFC_K2);
	vector<ref::B128> gamma;
	for (uint64_t i = 0; i < CLENS / 2 + 1; i++) gamma.push_back(rk.E({i, iv}));
	size_t n = gs_choice_(CLENS + 1, "words");
	auto w = symWords(n), want = w;
	for (size_t i = 0; i < n; i++) want[i] ^= i % 2 ? gamma[i / 2].hi : gamma[i / 2].lo;
	gs_assert_eq(blocks(kz::StCTREncrypted(make_shared<kz::StMemory>(w), key, iv).iter(), want), (n + 1) / 2 * 2, "as many blocks as there are");
	gs_reach("end");
}
ENTRY c04_lens()
{
	auto key = make_shared<kz::Key>(make_shared<RawKeyData>(RFC_K1, RFC_K2));
	const ref::Kuz rk(RFC_K1, RFC_K2);
	size_t n = 1 + gs_choice_(MLENS, "words");
	vector<uint64_t> w(n);
	for (size_t i = 0; i < n; i++) w[i] = 0x0123456789abcdef * (i + 1) ^ i << 40;
	auto last = gs_sym<uint64_t>("last");
	w[n - 1] = last;
	vector<ref::B128> d;
	for (size_t i = 0; i < n; i += 2) d.push_back({w[i], i + 1 < n ? w[i + 1] : 0});
	assertB(kz::Imit(make_shared<kz::StMemory>(w), key).value(), ref::kuzMac(rk, d, n % 2 == 0), "MAC of a stream of any length");
	gs_reach("end");
}
