// Reference specifications, written from the standards (RFC 7801 = GOST R 34.12-2015 128-bit,
// RFC 8891 = GOST R 34.12-2015 64-bit, RFC 5830 = GOST 28147-89, GOST R 34.13-2015 modes),
// independent of the library's code. They are executed symbolically next to it.
#pragma once
#include <cstddef>
#include <cstdint>
#include <vector>

namespace ref {

// ---------------------------------------------------------------- 128-bit cipher (RFC 7801)
struct B128 {
	uint64_t lo, hi;
};
inline B128 operator^(B128 a, B128 b) { return {a.lo ^ b.lo, a.hi ^ b.hi}; }

static const uint8_t PI[256] = {
	0xfc, 0xee, 0xdd, 0x11, 0xcf, 0x6e, 0x31, 0x16, 0xfb, 0xc4, 0xfa, 0xda, 0x23, 0xc5, 0x04, 0x4d,
	0xe9, 0x77, 0xf0, 0xdb, 0x93, 0x2e, 0x99, 0xba, 0x17, 0x36, 0xf1, 0xbb, 0x14, 0xcd, 0x5f, 0xc1,
	0xf9, 0x18, 0x65, 0x5a, 0xe2, 0x5c, 0xef, 0x21, 0x81, 0x1c, 0x3c, 0x42, 0x8b, 0x01, 0x8e, 0x4f,
	0x05, 0x84, 0x02, 0xae, 0xe3, 0x6a, 0x8f, 0xa0, 0x06, 0x0b, 0xed, 0x98, 0x7f, 0xd4, 0xd3, 0x1f,
	0xeb, 0x34, 0x2c, 0x51, 0xea, 0xc8, 0x48, 0xab, 0xf2, 0x2a, 0x68, 0xa2, 0xfd, 0x3a, 0xce, 0xcc,
	0xb5, 0x70, 0x0e, 0x56, 0x08, 0x0c, 0x76, 0x12, 0xbf, 0x72, 0x13, 0x47, 0x9c, 0xb7, 0x5d, 0x87,
	0x15, 0xa1, 0x96, 0x29, 0x10, 0x7b, 0x9a, 0xc7, 0xf3, 0x91, 0x78, 0x6f, 0x9d, 0x9e, 0xb2, 0xb1,
	0x32, 0x75, 0x19, 0x3d, 0xff, 0x35, 0x8a, 0x7e, 0x6d, 0x54, 0xc6, 0x80, 0xc3, 0xbd, 0x0d, 0x57,
	0xdf, 0xf5, 0x24, 0xa9, 0x3e, 0xa8, 0x43, 0xc9, 0xd7, 0x79, 0xd6, 0xf6, 0x7c, 0x22, 0xb9, 0x03,
	0xe0, 0x0f, 0xec, 0xde, 0x7a, 0x94, 0xb0, 0xbc, 0xdc, 0xe8, 0x28, 0x50, 0x4e, 0x33, 0x0a, 0x4a,
	0xa7, 0x97, 0x60, 0x73, 0x1e, 0x00, 0x62, 0x44, 0x1a, 0xb8, 0x38, 0x82, 0x64, 0x9f, 0x26, 0x41,
	0xad, 0x45, 0x46, 0x92, 0x27, 0x5e, 0x55, 0x2f, 0x8c, 0xa3, 0xa5, 0x7d, 0x69, 0xd5, 0x95, 0x3b,
	0x07, 0x58, 0xb3, 0x40, 0x86, 0xac, 0x1d, 0xf7, 0x30, 0x37, 0x6b, 0xe4, 0x88, 0xd9, 0xe7, 0x89,
	0xe1, 0x1b, 0x83, 0x49, 0x4c, 0x3f, 0xf8, 0xfe, 0x8d, 0x53, 0xaa, 0x90, 0xca, 0xd8, 0x85, 0x61,
	0x20, 0x71, 0x67, 0xa4, 0x2d, 0x2b, 0x09, 0x5b, 0xcb, 0x9b, 0x25, 0xd0, 0xbe, 0xe5, 0x6c, 0x52,
	0x59, 0xa6, 0x74, 0xd2, 0xe6, 0xf4, 0xb4, 0xc0, 0xd1, 0x66, 0xaf, 0xc2, 0x39, 0x4b, 0x63, 0xb6
};
// byte i of the 128-bit number, 0 = least significant
inline uint8_t byteOf(B128 b, int i) { return uint8_t((i < 8 ? b.lo : b.hi) >> (i % 8 * 8)); }
inline void addByte(B128 &b, int i, uint8_t v) { (i < 8 ? b.lo : b.hi) |= uint64_t(v) << (i % 8 * 8); }
inline B128 S(B128 b)
{
	B128 r{0, 0};
	for (int i = 0; i < 16; i++) addByte(r, i, PI[byteOf(b, i)]);
	return r;
}
// multiplication by a constant in GF(2)[x]/(x^8+x^7+x^6+x+1), Horner from the top bit of the constant
inline uint8_t gf(uint8_t v, unsigned c)
{
	uint8_t r = 0;
	for (int bit = 7; bit >= 0; bit--) {
		r = uint8_t(r << 1) ^ uint8_t(-(r >> 7) & 0xc3);
		if (c >> bit & 1) r ^= v;
	}
	return r;
}
// R: (a15..a0) -> l(a15..a0) || a15..a1
inline B128 R(B128 b)
{
	static const uint8_t lc[16] = {	// coefficient of a0 .. a15
		1, 148, 32, 133, 16, 194, 192, 1, 251, 1, 192, 194, 16, 133, 32, 148
	};
	uint8_t l = 0;
	for (int i = 0; i < 16; i++) l ^= gf(byteOf(b, i), lc[i]);
	return {b.lo >> 8 | b.hi << 56, b.hi >> 8 | uint64_t(l) << 56};
}
inline B128 L(B128 b)
{
	for (int i = 0; i < 16; i++) b = R(b);
	return b;
}
struct Kuz {
	B128 k[10];
	Kuz(B128 k1, B128 k2)
	{
		k[0] = k1;
		k[1] = k2;
		for (int i = 1; i <= 4; i++) {
			B128 a1 = k[2 * i - 2], a0 = k[2 * i - 1];
			for (int j = 1; j <= 8; j++) {
				B128 c = L({uint64_t(8 * (i - 1) + j), 0});
				B128 t = L(S(a1 ^ c)) ^ a0;
				a0 = a1;
				a1 = t;
			}
			k[2 * i] = a1;
			k[2 * i + 1] = a0;
		}
	}
	B128 E(B128 x) const
	{
		for (int i = 0; i < 9; i++) x = L(S(x ^ k[i]));
		return x ^ k[9];
	}
};
inline B128 dbl(B128 a)
{
	uint64_t c = -(a.hi >> 63) & 0x87;
	return {a.lo << 1 ^ c, a.hi << 1 | a.lo >> 63};
}
// OMAC of full blocks
inline B128 kuzMac(const Kuz &k, const std::vector<B128> &m, bool full = true)
{
	B128 c{0, 0};
	for (size_t i = 0; i + 1 < m.size(); i++) c = k.E(c ^ m[i]);
	B128 k1 = dbl(k.E({0, 0}));
	return k.E(c ^ m.back() ^ (full ? k1 : dbl(k1)));
}

// ---------------------------------------------------------------- 64-bit cipher (RFC 8891 / RFC 5830)
// The network for any round function F::round(i, a): round key i and table together
template<class F> struct Feistel {
	uint32_t round(int i, uint32_t a) const { return static_cast<const F *>(this)->round(i, a); }
	// a1||a0 as one 64-bit number
	uint64_t E(uint64_t x) const
	{
		uint32_t a1 = uint32_t(x >> 32), a0 = uint32_t(x);
		for (int i = 0; i < 32; i++) {
			uint32_t n = round(i < 24 ? i % 8 : 31 - i, a0) ^ a1;
			if (i < 31) { a1 = a0; a0 = n; }
			else a1 = n;
		}
		return uint64_t(a1) << 32 | a0;
	}
	uint64_t D(uint64_t x) const
	{
		uint32_t a1 = uint32_t(x >> 32), a0 = uint32_t(x);
		for (int i = 0; i < 32; i++) {
			uint32_t n = round(i < 8 ? i : 7 - i % 8, a0) ^ a1;
			if (i < 31) { a1 = a0; a0 = n; }
			else a1 = n;
		}
		return uint64_t(a1) << 32 | a0;
	}
	// 16 rounds of the imitovstavka (RFC 5830 section 8), N1 = low word, N2 = high word
	uint64_t I16(uint64_t x) const
	{
		uint32_t n1 = uint32_t(x), n2 = uint32_t(x >> 32);
		for (int i = 0; i < 16; i++) {
			uint32_t n = round(i % 8, n1) ^ n2;
			n2 = n1;
			n1 = n;
		}
		return uint64_t(n2) << 32 | n1;
	}
};
// pi[i][x]: substitution of nibble i (0 = least significant); k: K_1 .. K_8
struct Mag : Feistel<Mag> {
	uint32_t k[8];
	uint8_t pi[8][16];
	uint32_t t(uint32_t a) const
	{
		uint32_t r = 0;
		for (int i = 0; i < 8; i++) r |= uint32_t(pi[i][a >> (4 * i) & 15]) << (4 * i);
		return r;
	}
	uint32_t g(uint32_t key, uint32_t a) const
	{
		uint32_t v = t(a + key);
		return v << 11 | v >> 21;
	}
	uint32_t round(int i, uint32_t a) const { return g(k[i], a); }
};
static const uint8_t PARAMZ[8][16] = {	// id-tc26-gost-28147-param-Z
	{0xc, 4, 6, 2, 0xa, 5, 0xb, 9, 0xe, 8, 0xd, 7, 0, 3, 0xf, 1},
	{6, 8, 2, 3, 9, 0xa, 5, 0xc, 1, 0xe, 4, 7, 0xb, 0xd, 0, 0xf},
	{0xb, 3, 5, 8, 2, 0xf, 0xa, 0xd, 0xe, 1, 7, 4, 0xc, 9, 6, 0},
	{0xc, 8, 2, 1, 0xd, 4, 0xf, 6, 7, 0, 0xa, 5, 3, 0xe, 9, 0xb},
	{7, 0xf, 5, 0xa, 8, 1, 6, 0xd, 0, 9, 3, 0xe, 0xb, 4, 2, 0xc},
	{5, 0xd, 0xf, 6, 9, 2, 0xc, 0xa, 0xb, 7, 8, 1, 4, 3, 0xe, 0},
	{8, 0xe, 2, 5, 6, 9, 1, 0xc, 0xf, 4, 0xb, 0, 0xd, 0xa, 3, 7},
	{1, 7, 0xe, 0xd, 0, 5, 8, 3, 4, 0xf, 0xa, 6, 9, 0xc, 0xb, 2}
};
inline uint64_t dbl64(uint64_t a) { return a << 1 ^ (-(a >> 63) & 0x1b); }
inline uint64_t loadLE(const unsigned char *p, size_t n = 8)
{
	uint64_t v = 0;
	for (size_t i = 0; i < n; i++) v |= uint64_t(p[i]) << (8 * i);
	return v;
}
inline void storeLE(unsigned char *p, uint64_t v) { for (int i = 0; i < 8; i++) p[i] = (unsigned char)(v >> (8 * i)); }

typedef std::vector<unsigned char> Bytes;
// cipher feedback with a shift register of m blocks (m = 1: GOST 28147-89, m = 2: the 34.13 mode here)
template<class C> inline Bytes cfb(const C &k, std::vector<uint64_t> reg, const Bytes &in, bool encrypt)
{
	Bytes out(in.size());
	for (size_t pos = 0; pos < in.size(); pos += 8) {
		size_t n = in.size() - pos < 8 ? in.size() - pos : 8;
		unsigned char gamma[8];
		storeLE(gamma, k.E(reg[0]));
		for (size_t i = 0; i < n; i++) out[pos + i] = in[pos + i] ^ gamma[i];
		for (size_t i = 0; i + 1 < reg.size(); i++) reg[i] = reg[i + 1];
		if (n == 8) reg[reg.size() - 1] = loadLE(encrypt ? &out[pos] : &in[pos]);
	}
	return out;
}
template<class C> inline Bytes ecb(const C &k, const Bytes &in, bool encrypt)
{
	Bytes out(in.size());
	for (size_t pos = 0; pos + 8 <= in.size(); pos += 8) {
		uint64_t v = loadLE(&in[pos]);
		storeLE(&out[pos], encrypt ? k.E(v) : k.D(v));
	}
	return out;
}
// pad: what follows the message inside a short last block (-1: nothing but zeroes)
template<class C> inline uint64_t magMac(const C &k, const Bytes &in, int pad = -1)
{
	uint64_t c = 0;
	size_t pos = 0;
	while (in.size() - pos > 8) {
		c = k.E(c ^ loadLE(&in[pos]));
		pos += 8;
	}
	size_t n = in.size() - pos;
	uint64_t k1 = dbl64(k.E(0));
	uint64_t last = n ? loadLE(&in[pos], n) : 0;
	if (n < 8 && pad >= 0) last |= uint64_t(pad) << (8 * n);
	return k.E(c ^ last ^ (n == 8 ? k1 : dbl64(k1)));
}
template<class C> inline uint64_t gostImit(const C &k, Bytes in)
{
	while (in.size() < 16 || in.size() % 8) in.push_back(0);
	uint64_t c = 0;
	for (size_t pos = 0; pos < in.size(); pos += 8) c = k.I16(c ^ loadLE(&in[pos]));
	return c;
}
}	// namespace ref
