// Writers of the container formats the library reads (from the format descriptions, with the reference cryptography),
// together with what a reader has to find in them.
#pragma once
#include "dk.h"
#include "mut.h"
#include <memory>
#include <functional>

namespace ct
{
struct Key
{
    std::shared_ptr<dk::RefKey> k;   // a DSTU key, or
    Bytes other;                     // the PKCS#8 form of a key of another algorithm
    bool second = false;             // stands in the attributes of the key before it
};
struct Expect { std::vector<Key> keys; std::vector<Bytes> certs; };

struct Password { Bytes utf8, utf16be; };
Password gen_password(Src& s, size_t maxChars = 24);      // not empty, valid UTF-8, no NUL
Password other_password(Src& s, const Password& p);       // a different one, often a near miss

Bytes gen_cert(Src& s, size_t pad);                       // an X.509 certificate; pad: bytes of extension
// a PKCS#8 structure as it may stand in a container and the keys in it; attrs: also a second key and other attributes
struct P8Out { Bytes der; std::vector<Key> keys; };
P8Out gen_p8(Src& s, bool second, int toys = 1);
Key gen_plain_key(Src& s, Bytes* der);
Bytes attr(const char* oid, const Bytes& values);
Bytes curve_attr_value(const dk::Curve& c, Src& s);
Bytes key_attr_value(const dk::RefKey& k, Src& s);

// large containers: sizes and numbers far above the usual ones; bytes: of one value, many: entries, pw: characters of a password
struct Big { size_t bytes = 0, many = 0, pw = 0; };
extern Big g_big;
struct MakeBig { MakeBig(size_t bytes, size_t many, size_t pw) { g_big.bytes = bytes; g_big.many = many; g_big.pw = pw; } ~MakeBig() { g_big = Big(); } };

// faults: when set, length fields and inner encodings are damaged now and then
struct Fault { Src* s = nullptr; unsigned rate = 0; std::string how; bool hit() { return s && s->chance(rate); } };
Bytes calm(const Bytes& der);                             // large iteration counts replaced (they only burn time)

struct Container
{
    int kind;                                             // 0 JKS, 1 Key-6, 2 PKCS#12
    Bytes bytes; Bytes pass, keypass;                     // as handed to the reader
    Password jstore, jkey;                                // JKS
    Expect want;
    size_t macFrom = 0, macTo = 0;                        // PKCS#12: the MAC-protected octets
    std::string desc;
    bool readable = true;                                 // false: a reader must fail
};
struct JksOpt { int maxEntries = 4; size_t pad = 700; bool seconds = true; int odd = 0; /* 1..: something the reader must refuse, under a right digest */ };
Container gen_jks(Src& s, const JksOpt& o = JksOpt(), Fault* f = nullptr);
Container jks_of(const std::vector<Bytes>& p8, Src& s);     // one entry per structure, no certificates
struct Key6Opt { int badness = 0; /* 1: the payload is cut, 2: not a key, 3: other container type, 4: tail that is no whole block */ bool fewpw = true; };
Container gen_key6(Src& s, const Key6Opt& o = Key6Opt(), Fault* f = nullptr);
struct P12Opt { int bad = 0; /* 1: a bag that cannot be read */ size_t pad = 500; };
Container gen_p12(Src& s, const P12Opt& o = P12Opt(), Fault* f = nullptr);
Container gen_any(Src& s, bool cheap, Fault* f = nullptr);

// calls of the code under test on exact-size copies
int parse(const Container& c, const Bytes& b, const Bytes& pass, const Bytes& keypass, KeyStore** ks);
inline int parse(const Container& c, KeyStore** ks) { return parse(c, c.bytes, c.pass, c.keypass, ks); }
int read_file(const Container& c, FILE* f, const Bytes& pass, const Bytes& keypass, KeyStore** ks);
int read_bio(const Container& c, BIO* b, const Bytes& pass, const Bytes& keypass, KeyStore** ks);

struct Store { KeyStore* p = nullptr; ~Store() { reset(); } Store() {} Store(const Store&) = delete; Store(Store&& o) : p(o.p) { o.p = nullptr; } Store& operator=(Store&& o) { if (this != &o) { reset(); p = o.p; o.p = nullptr; } return *this; } void reset() { if (p) KL.KeyStoreFree(p); p = nullptr; } };
void same_key(const EVP_PKEY* p, const Key& k, const char* where);
void same_cert(const X509* x, const Bytes& der, const char* where);
void same_store(KeyStore* ks, const Expect& e, const char* where);
std::string image(KeyStore* ks);                          // everything observable, as text
Bytes pkcs12_kdf(int hashKind, const Bytes& pw16z, const Bytes& salt, int id, int iter, size_t n);
}
