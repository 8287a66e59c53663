// A 64-bit cipher over an arbitrary round function: what the modes do does not depend on the cipher, so
// every 32-bit function of (round key index, word) stands in for it, given through the public interface.
#pragma once
#include "common.h"
#include <goost/magma/Key.h>
#include <goost/magma/KeyData.h>
inline uint32_t anyRound(int i, uint32_t v)
{
	uint64_t in[2] = {uint64_t(i), v}, out;
	gs_uf("round", in, 2, &out, 1);
	return uint32_t(out);
}
// as a user's own kind of key
class AnyKey final : public goost::magma::Key {
public:
	uint32_t transform(uint32_t v, int i) const override
	{
		gs_assert((i >= 0) & (i < 8), "a mode asks for round keys 0..7 only");
		return anyRound(i, v);
	}
};
struct RefAnyKey : ref::Feistel<RefAnyKey> {
	uint32_t round(int i, uint32_t v) const { return anyRound(i, v); }
};
// as a user's own kinds of key store and substitution under the library's key
inline uint32_t anyWord(int i)
{
	uint64_t in = i, out;
	gs_uf("word", &in, 1, &out, 1);
	return uint32_t(out);
}
inline uint32_t anySubst(uint32_t v)
{
	uint64_t in = v, out;
	gs_uf("subst", &in, 1, &out, 1);
	return uint32_t(out);
}
class AnyKeyData final : public goost::magma::KeyData {
public:
	uint32_t key(int i) const override { return anyWord(i); }
};
class AnySbox final : public goost::magma::Sbox {
public:
	uint32_t transform(uint32_t v) const override { return anySubst(v); }
};
inline std::shared_ptr<const goost::magma::LazyKey> anyLazyKey()
{
	return std::make_shared<goost::magma::LazyKey>(std::make_unique<AnyKeyData>(), std::make_shared<AnySbox>());
}
struct RefAnyLazyKey : ref::Feistel<RefAnyLazyKey> {
	uint32_t round(int i, uint32_t v) const { return anySubst(anyWord(i) + v); }
};
