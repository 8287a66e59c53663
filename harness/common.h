// Test doubles and builders shared by the harnesses.
#pragma once
#include "gs.h"
#include "ref.h"
#include <cstring>
#include <functional>
#include <memory>
#include <utility>
#include <goost/Sink.h>
#include <goost/Source.h>
#include <goost/magma/LazyKey.h>
#include <goost/magma/Sbox.h>
#include <goost/magma/SboxByte.h>
#include <goost/magma/SboxNibble.h>
#include <goost/magma/SboxTwisted.h>
#include <goost/kuznyechik/BlkRaw.h>
#include <goost/kuznyechik/Key.h>

typedef std::vector<std::byte> SBytes;
using ref::Bytes;
inline SBytes toS(const Bytes &b)
{
	SBytes r(b.size());
	for (size_t i = 0; i < b.size(); i++) r[i] = static_cast<std::byte>(b[i]);
	return r;
}
inline Bytes fromS(const SBytes &b)
{
	Bytes r(b.size());
	for (size_t i = 0; i < b.size(); i++) r[i] = static_cast<unsigned char>(b[i]);
	return r;
}
inline void assertBytes(const Bytes &got, const Bytes &want, const char *msg)
{
	gs_assert_eq(got.size(), want.size(), msg);
	for (size_t i = 0; i < got.size() && i < want.size(); i++) gs_assert_eq(got[i], want[i], msg);
}
inline void emitBytes(const char *name, const Bytes &b)
{
	for (size_t i = 0; i < b.size(); i++) gs_emit(name, b[i]);
}

// a sink that remembers everything written below it; persistent like the library's own
class CollectSink final : public goost::Sink {
public:
	CollectSink() : data(), finals(0) {}
	CollectSink(const Bytes &d, int f) : data(d), finals(f) {}
	std::shared_ptr<const goost::Sink> write(const SBytes &d) const override
	{
		Bytes n = data;
		for (auto b : d) n.push_back(static_cast<unsigned char>(b));
		return std::make_shared<CollectSink>(n, finals);
	}
	std::shared_ptr<const goost::Sink> finalize() const override
	{
		return std::make_shared<CollectSink>(data, finals + 1);
	}
	const Bytes data;
	const int finals;
};
inline Bytes collected(const std::shared_ptr<const goost::Sink> &s)
{
	auto c = std::dynamic_pointer_cast<const CollectSink>(s);
	if (!c) { gs_fail("finalize() did not return the underlying sink"); return {}; }
	return c->data;
}

// a source over a byte vector; persistent; reads return what is asked for until the end
class VecSource final : public goost::Source {
public:
	VecSource(const std::shared_ptr<const Bytes> &d, size_t pos) : data(d), pos(pos) {}
	explicit VecSource(const Bytes &d) : data(std::make_shared<const Bytes>(d)), pos(0) {}
	std::pair<SBytes, std::shared_ptr<const goost::Source>> read(size_t size) const override
	{
		SBytes r;
		size_t p = pos;
		while (r.size() < size && p < data->size()) r.push_back(static_cast<std::byte>((*data)[p++]));
		return {r, std::make_shared<VecSource>(data, p)};
	}
private:
	const std::shared_ptr<const Bytes> data;
	const size_t pos;
};
// everything a source has, read in chunks of the given size
inline Bytes drain(std::shared_ptr<const goost::Source> s, size_t chunk, size_t limit = 256)
{
	Bytes out;
	for (size_t guard = 0; guard <= limit; guard++) {
		auto r = s->read(chunk);
		if (r.first.empty()) return out;
		gs_assert(r.first.size() <= chunk, "read() returned more than was asked for");
		for (auto b : r.first) out.push_back(static_cast<unsigned char>(b));
		s = r.second;
	}
	gs_fail("source never ends");
	return out;
}

// 64-bit cipher key with arbitrary key words and an arbitrary substitution (8 tables of 16 nibbles,
// in the collapsed 64-byte form)
struct MagKey {
	ref::Mag ref;
	std::vector<uint32_t> words;
	std::vector<uint8_t> box;
	std::shared_ptr<const goost::magma::LazyKey> key;
};
inline MagKey magKeyFrom(const uint32_t *w, const uint8_t *box)
{
	MagKey m;
	m.words.assign(w, w + 8);
	m.box.assign(box, box + 64);
	for (int i = 0; i < 8; i++) m.ref.k[i] = w[i];
	for (int x = 0; x < 16; x++)
		for (int b = 0; b < 4; b++) {
			m.ref.pi[2 * b][x] = box[4 * x + b] & 15;
			m.ref.pi[2 * b + 1][x] = box[4 * x + b] >> 4;
		}
	m.key = std::make_shared<goost::magma::LazyKey>(
		m.words,
		std::make_shared<goost::magma::SboxTwisted>(std::make_unique<goost::magma::SboxByte>(m.box)));
	return m;
}
inline MagKey magKey()	// every key, every substitution
{
	uint32_t w[8];
	uint8_t box[64];
	gs_symbolic(w, sizeof w, "key");
	gs_symbolic(box, sizeof box, "sbox");
	return magKeyFrom(w, box);
}
inline MagKey magKeyZ()	// every key, the 34.12 substitution
{
	uint32_t w[8];
	uint8_t box[64];
	gs_symbolic(w, sizeof w, "key");
	for (int x = 0; x < 16; x++)
		for (int b = 0; b < 4; b++) box[4 * x + b] = ref::PARAMZ[2 * b][x] | ref::PARAMZ[2 * b + 1][x] << 4;
	return magKeyFrom(w, box);
}
inline uint64_t num(const std::pair<uint32_t, uint32_t> &v) { return uint64_t(v.second) << 32 | v.first; }

// 128-bit cipher key given as two blocks
class RawKeyData final : public goost::kuznyechik::Key::Data {
public:
	RawKeyData(ref::B128 k1, ref::B128 k2) : k1(k1), k2(k2) {}
	std::shared_ptr<const goost::kuznyechik::Block> low() const override
	{
		return std::make_shared<goost::kuznyechik::BlkRaw>(k2.lo, k2.hi);
	}
	std::shared_ptr<const goost::kuznyechik::Block> high() const override
	{
		return std::make_shared<goost::kuznyechik::BlkRaw>(k1.lo, k1.hi);
	}
private:
	const ref::B128 k1, k2;
};
inline ref::B128 symB(const char *name)
{
	ref::B128 b;
	gs_symbolic(&b, sizeof b, name);
	return b;
}
inline std::shared_ptr<const goost::kuznyechik::BlkRaw> blk(ref::B128 b)
{
	return std::make_shared<goost::kuznyechik::BlkRaw>(b.lo, b.hi);
}
inline void assertB(const std::pair<uint64_t, uint64_t> &v, ref::B128 w, const char *msg)
{
	gs_assert_eq(v.first, w.lo, msg);
	gs_assert_eq(v.second, w.hi, msg);
}
inline void emitB(const char *n, const std::pair<uint64_t, uint64_t> &v)
{
	gs_emit(n, v.first);
	gs_emit(n, v.second);
}
// an arbitrary hexadecimal digit in either case, with its value
inline char hexDigit(unsigned char raw, unsigned &value)
{
	value = raw & 15;
	unsigned upper = raw >> 4 & 1;
	return char(value < 10 ? '0' + value : (upper ? 'A' : 'a') + value - 10);
}
