#include "common.h"
#include <goost/magma/BlkDecrypted.h>
#include <goost/magma/BlkEncrypted.h>
#include <goost/magma/BlkForwarded.h>
#include <goost/magma/BlkBackwarded.h>
#include <goost/magma/BlkRaw.h>
#include <goost/magma/EncryptionBase.h>
#include <goost/magma/SboxR3412.h>
#include <goost/magma/KeyDataNative.h>
#include <goost/magma/KeyCachedData.h>
using namespace goost::magma;
using namespace std;

// E_K(x) is the 34.12 / 28147-89 cipher for every key, every substitution, every block,
// through both interfaces.
ENTRY c07_blkencrypted()
{
	auto k = magKey();
	auto x = gs_sym<uint64_t>("x");
	auto v = num(BlkEncrypted(make_shared<BlkRaw>(x), k.key).value());
	gs_reach("encrypted");
	gs_assert_eq(v, k.ref.E(x), "BlkEncrypted equals the 64-bit block cipher");
	gs_emit("e", v);
}
ENTRY c07_encryptionbase()
{
	auto k = magKey();
	auto x = gs_sym<uint64_t>("x");
	auto v = EncryptionBase(k.key).transform(x);
	gs_reach("encrypted");
	gs_assert_eq(v, k.ref.E(x), "EncryptionBase equals the 64-bit block cipher");
	gs_emit("e", v);
}
ENTRY c07_blkdecrypted()
{
	auto k = magKey();
	auto x = gs_sym<uint64_t>("x");
	auto v = num(BlkDecrypted(make_shared<BlkRaw>(x), k.key).value());
	gs_reach("decrypted");
	gs_assert_eq(v, k.ref.D(x), "BlkDecrypted equals the inverse cipher");
	gs_emit("d", v);
}
// the standard substitution, through the library's own default
ENTRY c07_r3412()
{
	auto k = magKeyZ();
	auto x = gs_sym<uint64_t>("x");
	auto key = make_shared<LazyKey>(k.words, make_shared<SboxR3412>());
	auto v = num(BlkEncrypted(make_shared<BlkRaw>(x), key).value());
	auto d = num(BlkDecrypted(make_shared<BlkRaw>(x), key).value());
	gs_reach("encrypted");
	gs_assert_eq(v, k.ref.E(x), "encryption with the 34.12 substitution");
	gs_assert_eq(d, k.ref.D(x), "decryption with the 34.12 substitution");
	gs_assert_eq(EncryptionBase(key).transform(x), k.ref.E(x), "EncryptionBase with the 34.12 substitution");
	gs_emit("e", v);
}

// decryption inverts encryption and encryption inverts decryption, for any round function at all
ENTRY c08_dec_enc()
{
	auto k = magKey();
	auto x = gs_sym<uint64_t>("x");
	auto e = make_shared<BlkEncrypted>(make_shared<BlkRaw>(x), k.key);
	auto d = num(BlkDecrypted(make_shared<BlkRaw>(num(e->value())), k.key).value());
	gs_assert_eq(d, x, "D_K(E_K(x)) = x");
	gs_assert_eq(num(BlkDecrypted(e, k.key).value()), x, "D_K(E_K(x)) = x, composed lazily");
	gs_reach("end");
	gs_emit("d", d);
}
ENTRY c08_enc_dec()
{
	auto k = magKey();
	auto x = gs_sym<uint64_t>("x");
	auto d = num(BlkDecrypted(make_shared<BlkRaw>(x), k.key).value());
	gs_assert_eq(num(BlkEncrypted(make_shared<BlkRaw>(d), k.key).value()), x, "E_K(D_K(x)) = x");
	gs_reach("end");
}
ENTRY c08_base_dec()
{
	auto k = magKey();
	auto x = gs_sym<uint64_t>("x");
	auto e = EncryptionBase(k.key).transform(x);
	gs_assert_eq(num(BlkDecrypted(make_shared<BlkRaw>(e), k.key).value()), x, "BlkDecrypted inverts EncryptionBase");
	gs_reach("end");
}
ENTRY c08_fwd_bwd()
{
	auto k = magKey();
	auto x = gs_sym<uint64_t>("x");
	auto f = BlkForwarded(make_shared<BlkRaw>(x), k.key).value();
	// eight forward rounds are undone by eight backward rounds with the halves exchanged
	auto b = BlkBackwarded(make_shared<BlkRaw>(f.second, f.first), k.key).value();
	gs_assert_eq(b.second, uint32_t(x), "forward then backward rounds");
	gs_assert_eq(b.first, uint32_t(x >> 32), "forward then backward rounds");
	gs_reach("end");
}

// ------------------------------------------------------------------ substitutions
ENTRY c09_sboxbyte()
{
	auto k = magKey();
	auto x = gs_sym<uint32_t>("v");
	gs_assert_eq(SboxByte(k.box).transform(x), k.ref.t(x), "SboxByte substitutes every nibble by its table");
	gs_reach("end");
}
ENTRY c09_sboxnibble()
{
	auto k = magKey();
	auto x = gs_sym<uint32_t>("v");
	vector<vector<int>> p(8);
	for (int i = 0; i < 8; i++) for (int j = 0; j < 16; j++) p[i].push_back(k.ref.pi[i][j]);
	SboxNibble n(p[0], p[1], p[2], p[3], p[4], p[5], p[6], p[7]);
	gs_assert_eq(n.transform(x), k.ref.t(x), "SboxNibble substitutes every nibble by its table");
	gs_assert_eq(n.transform(x), SboxByte(k.box).transform(x), "SboxNibble and SboxByte agree");
	gs_reach("end");
}
class AnySbox final : public Sbox {
public:
	explicit AnySbox(uint32_t out) : out(out) {}
	uint32_t transform(uint32_t) const override { return out; }
private:
	const uint32_t out;
};
ENTRY c09_twisted()
{
	auto o = gs_sym<uint32_t>("out");
	auto x = gs_sym<uint32_t>("v");
	gs_assert_eq(SboxTwisted(make_unique<AnySbox>(o)).transform(x), uint32_t(o << 11 | o >> 21), "SboxTwisted rotates left by 11");
	gs_reach("end");
}
ENTRY c09_r3412()
{
	auto x = gs_sym<uint32_t>("v");
	ref::Mag m{};
	memcpy(m.pi, ref::PARAMZ, sizeof m.pi);
	gs_assert_eq(SboxR3412().transform(x), m.g(0, x), "SboxR3412 is the 34.12 substitution followed by the rotation");
	gs_reach("end");
}
ENTRY c09_keystep()
{
	// key addition modulo 2^32 and choice of the round key
	auto k = magKey();
	auto x = gs_sym<uint32_t>("v");
	for (int i = 0; i < 8; i++) {
		gs_assert_eq(k.key->transform(x, i), k.ref.g(k.words[i], x), "LazyKey adds round key i modulo 2^32 and substitutes");
	}
	LazyKey cached(
		make_unique<KeyCachedData>(make_unique<KeyDataNative>(k.words)),
		make_shared<SboxTwisted>(make_unique<SboxByte>(k.box)));
	for (int i = 7; i >= 0; i--) gs_assert_eq(cached.transform(x, i), k.ref.g(k.words[i], x), "LazyKey over cached key data");
	gs_reach("end");
}
