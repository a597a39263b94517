// Independent reference implementations, written from the standards (not from the code under test).
#pragma once
#include "src.h"
#include <cstdint>
namespace ref
{
struct Sbox { uint8_t k[8][16]; };                    // k[0] substitutes the lowest nibble
extern const uint8_t DEFAULT_PACKED[64];
Sbox unpack(const uint8_t packed[64]);
Bytes pack(const Sbox&);
inline Sbox dflt() { return unpack(DEFAULT_PACKED); }

struct Gost                                            // GOST 28147-89
{
    Sbox s; uint32_t K[8];
    Gost(const Sbox& sb, const uint8_t key[32]);
    uint32_t f(uint32_t x) const;
    void enc(const uint8_t in[8], uint8_t out[8]) const;
    void dec(const uint8_t in[8], uint8_t out[8]) const;
    void mac16(uint8_t state[8], const uint8_t block[8]) const;
};
Bytes cfb(const Sbox&, const uint8_t key[32], const uint8_t iv[8], const Bytes& in, bool encrypt);
Bytes ecb_dec(const Sbox&, const uint8_t key[32], const Bytes& in);
Bytes ecb_enc(const Sbox&, const uint8_t key[32], const Bytes& in);
// streaming CFB, byte-wise
struct Cfb
{
    Sbox s; uint8_t key[32]; uint8_t oiv[8]; uint8_t iv[8]; uint8_t gamma[8]; unsigned pos; 
    void start() { memcpy(iv, oiv, 8); pos = 0; }
    Bytes run(const Bytes& in, bool encrypt);
};
Bytes mac(const Sbox&, const uint8_t key[32], const uint8_t iv[8], const Bytes& data, int nbits);
void cryptopro_mesh(const Sbox&, uint8_t key[32], uint8_t iv[8]);

Bytes hash(const Sbox&, const uint8_t* p, size_t n);   // GOST 34.311-95, zero starting vector
inline Bytes hash(const Sbox& s, const Bytes& b) { return hash(s, b.data(), b.size()); }
struct HashState { Sbox s; uint8_t H[32], S[32]; uint64_t blocks; Bytes rest; };
void hinit(HashState&, const Sbox&);
void hupdate(HashState&, const uint8_t*, size_t);
Bytes hfinal(const HashState&);
Bytes hmac(const Sbox&, const Bytes& key, const Bytes& msg);
Bytes pbkdf2(const Sbox&, const Bytes& pass, const Bytes& salt, unsigned iter, size_t len);
Bytes key6_kdf(const Bytes& pass);                     // 10000-fold hash
void selfcheck();                                      // known answers; aborts the harness when wrong
}
