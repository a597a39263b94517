// The environment of a case: allocator with live counters, deterministic random source, the engine and the
// container library loaded from the build of /repo's working tree (never linked in, never its headers).
#pragma once
#include "src.h"
#ifndef OPENSSL_SUPPRESS_DEPRECATED
#define OPENSSL_SUPPRESS_DEPRECATED
#endif
#include <openssl/engine.h>
#include <openssl/evp.h>
#include <openssl/x509.h>
#include <openssl/bio.h>
#include <openssl/bn.h>
#include <openssl/ec.h>
#include <openssl/err.h>
#include <openssl/rand.h>
#include <openssl/obj_mac.h>
#include <openssl/objects.h>

void env_init();
void env_load(const Scenario& sc);
void env_case_begin(const Scenario& sc);
void env_case_end(const Scenario& sc);

// ---- random source (a RAND_METHOD of the harness; every draw is a function of the case)
struct Rng
{
    uint64_t seed = 0, ctr = 0;
    uint64_t calls = 0, drawn = 0;
    uint64_t limit = 1u << 20;      // bytes; beyond it the source fails and `exhausted` is set
    int64_t fail_from = -1;         // calls with number >= fail_from fail
    bool exhausted = false, failed = false;
    Bytes script; size_t spos = 0;  // delivered before the pseudo-random part
    void reset(uint64_t sd) { *this = Rng(); seed = sd; }
    bool bytes(uint8_t* p, size_t n);
};
extern thread_local Rng g_rng;

// ---- memory
extern uint8_t g_fill;               // fresh OpenSSL allocations are filled with this
int64_t live_allocs();               // OpenSSL allocations alive
int64_t live_bytes();                // all heap bytes alive (sanitizer's counter)
struct MemFault                      // OpenSSL allocations of this thread that fail (counted from arm())
{
    bool armed = false, persistent = false; uint64_t count = 0, fail_at = 0, struck = 0;
    void arm(uint64_t k, bool all) { armed = true; persistent = all; count = 0; fail_at = k; struck = 0; }
    void off() { armed = false; }
    bool strike();
};
extern thread_local MemFault g_memfault;
// what OpenSSL's allocator is given back, kept while `on` (P32)
struct Released
{
    bool on = false; std::vector<Bytes> blocks; size_t bytes = 0, missed = 0, own = 0;
    std::vector<Bytes> only;             // when not empty: only blocks with one of these in them, unless OpenSSL's decoders made them
    void take(const void* p);
};
extern thread_local Released g_released;

// ---- engine
extern ENGINE* g_engine;             // loaded, initialised and default (except RAND) unless NO_ENGINE
ENGINE* engine_load_dynamic(const char* idExpected = "dstu"); // structural reference or nullptr
bool engine_use(ENGINE* e);          // ENGINE_init + set_default without RAND
const EVP_MD* MD();
const EVP_CIPHER* CIPHER();
std::string err_text();

enum { CTRL_SBOX_MD = EVP_MD_CTRL_ALG_CTRL + 1, CTRL_SBOX_PKEY = EVP_PKEY_ALG_CTRL + 1, CTRL_CURVE_PKEY = EVP_PKEY_ALG_CTRL + 2 };

// ---- container library
struct KeyStore;
struct KeyLib
{
    int (*parseJKS)(const void*, size_t, const char*, size_t, const char*, size_t, KeyStore**);
    int (*readJKS)(FILE*, const char*, size_t, const char*, size_t, KeyStore**);
    int (*readJKS_bio)(BIO*, const char*, size_t, const char*, size_t, KeyStore**);
    int (*parseKey6)(const void*, size_t, const char*, size_t, KeyStore**);
    int (*readKey6)(FILE*, const char*, size_t, KeyStore**);
    int (*readKey6_bio)(BIO*, const char*, size_t, KeyStore**);
    int (*parsePKCS12)(const void*, size_t, const char*, size_t, KeyStore**);
    int (*readPKCS12)(FILE*, const char*, size_t, KeyStore**);
    int (*readPKCS12_bio)(BIO*, const char*, size_t, KeyStore**);
    void (*KeyStoreFree)(KeyStore*);
    size_t (*KeyStoreKeyNum)(const KeyStore*);
    size_t (*KeyStoreCertNum)(const KeyStore*);
    const EVP_PKEY* (*KeyStoreGetKey)(const KeyStore*, size_t);
    const X509* (*KeyStoreGetCert)(const KeyStore*, size_t);
};
extern KeyLib KL;
void* keylib_sym(const char* name);   // any exported function of the container library (it contains the GOST code)
bool pc_in_repo_module(const void* pc);

// ---- seeding source seen by the engine's random generator (interposed RAND_OpenSSL()/time())
struct SeedSource
{
    bool active = false;
    Bytes bytes; size_t pos = 0;      // delivered by RAND_OpenSSL()->bytes, then pseudo-random from seed
    uint64_t seed = 0;
    int status = 1;
    int64_t fail_from = -1;           // bytes() calls >= this fail
    volatile uint64_t calls = 0; volatile uint64_t delivered = 0;
    bool fake_time = false; int64_t time = 0; volatile uint64_t time_calls = 0;
    std::vector<Bytes> given;         // what each successful call delivered
};
extern SeedSource g_seed;

// owning helpers
template<class T, void (*F)(T*)> struct Own
{
    T* p = nullptr;
    Own() {}
    Own(T* q) : p(q) {}
    Own(const Own&) = delete;
    Own(Own&& o) : p(o.p) { o.p = nullptr; }
    Own& operator=(Own&& o) { if (this != &o) { reset(); p = o.p; o.p = nullptr; } return *this; }
    ~Own() { reset(); }
    void reset(T* q = nullptr) { if (p) F(p); p = q; }
    operator T*() const { return p; }
    T* get() const { return p; }
    T* release() { T* q = p; p = nullptr; return q; }
};
inline void bio_free_(BIO* b) { BIO_free_all(b); }
inline void pkcs8_free_(PKCS8_PRIV_KEY_INFO* b) { PKCS8_PRIV_KEY_INFO_free(b); }
using PKey = Own<EVP_PKEY, EVP_PKEY_free>;
using PKeyCtx = Own<EVP_PKEY_CTX, EVP_PKEY_CTX_free>;
using MdCtx = Own<EVP_MD_CTX, EVP_MD_CTX_free>;
using CipherCtx = Own<EVP_CIPHER_CTX, EVP_CIPHER_CTX_free>;
using Bn = Own<BIGNUM, BN_clear_free>;
using BnCtx = Own<BN_CTX, BN_CTX_free>;
using Group = Own<EC_GROUP, EC_GROUP_free>;
using Point = Own<EC_POINT, EC_POINT_free>;
using Bio = Own<BIO, bio_free_>;
using Cert = Own<X509, X509_free>;
using P8 = Own<PKCS8_PRIV_KEY_INFO, pkcs8_free_>;

// ---- data races seen by ThreadSanitizer (empty text in other builds); only accesses made by /repo's code count
void races_reset();
std::string races();
