// Reference model of DSTU 4145 keys, curves, signatures and their encodings (OpenSSL big numbers and GF(2^m)
// arithmetic underneath; nothing of the code under test).
#pragma once
#include "env.h"
#include "ref.h"
#include "der.h"
#include "gen.h"
#include <memory>

namespace dk
{
struct Curve
{
    int named;                    // number of the named curve, -1 when explicit only
    std::vector<int> ex;          // exponents, descending, without 0: {m,k} or {m,l,j,k}
    int a;
    Bytes b, n, gx, gy;           // big-endian
    std::string name;
    int m = 0, fb = 0, nb = 0;    // degree, field bytes, order bytes
    bool toy = false;
    EC_GROUP* grp = nullptr;      // cofactor 1, as the engine sets it
    BIGNUM *N = nullptr, *P = nullptr, *B = nullptr;
};
const Curve& named(int i);                 // 0..9
int ncurves();                             // all curves of the model
const Curve& curve(int i);                 // named first, then OpenSSL's, then other base points, then small ones
int first_toy();
void selfcheck();

const char* curve_sn(int i);               // "uacurve0"...
struct Bnum;                               // forward

Bytes bn2b(const BIGNUM* x, size_t n);     // big-endian, exactly n bytes (must fit)
inline Bytes rev(Bytes b) { return Bytes(b.rbegin(), b.rend()); }
BIGNUM* b2bn(const Bytes& b);

int trace(const Curve& c, const BIGNUM* z);
Bytes compress(const Curve& c, const EC_POINT* q);                   // fb bytes, big-endian
bool expand(const Curve& c, const Bytes& be, EC_POINT* out);         // reference; false: no such point
Bytes xy(const Curve& c, const EC_POINT* q);                         // x||y, or empty for infinity

struct RefKey
{
    const Curve* c = nullptr;
    bool le = true;
    Bytes table;                    // empty: no table in the encoding
    Bytes d;                        // nb bytes big-endian
    Own<EC_POINT, EC_POINT_free> Q;
    ref::Sbox sbox() const { return table.empty() ? ref::dflt() : ref::unpack(table.data()); }
    bool default_table() const { return table.empty() || !memcmp(table.data(), ref::DEFAULT_PACKED, 64); }
};
void set_secret(RefKey& k, const Bytes& d);                           // any length big-endian; recomputes Q
Bytes gen_secret(Src& s, const Curve& c);                             // in [1, n-1], nb bytes
RefKey gen_key(Src& s, int toys /* 0 never, 1 sometimes, 2 only */);
const Curve& gen_curve(Src& s, int toys);
RefKey clone(const RefKey& k);
std::string describe(const RefKey& k);

// a curve made up for one case: any field of fields.inc (or a named curve with one parameter changed), any b, any base
// point, any order of plausible size - good for encodings and points, not for arithmetic that needs the true order
struct TmpCurve { Curve c; ~TmpCurve(); };
std::unique_ptr<TmpCurve> gen_synth(Src& s);
bool gen_point(Src& s, const Curve& c, EC_POINT* out);                // with a canonical compressed form
bool degenerate(const Curve& c, const EC_POINT* q);
EC_GROUP* group_with_cofactor(const Curve& c, int how);               // 0: 1, 1: real (computed by OpenSSL), 2: 2, 3: 4

Bytes curve_spec(const Curve& c, bool le);                            // CustomCurveSpec
Bytes params(const Curve& c, bool le, const Bytes& table, bool explicitly); // table empty: omitted
Bytes alg_oid(bool le);
Bytes spki(const RefKey& k, bool explicitly = false);                 // canonical unless explicitly
Bytes spki_with(const RefKey& k, const Bytes& paramsDer);
Bytes pkcs8(const RefKey& k, bool explicitly = false, const Bytes& attrs = Bytes());
Bytes canonical_table(const Bytes& t);                                // default -> empty

PKey load_pub(const Bytes& spki);                                     // through the engine; null on failure
PKey load_priv(const Bytes& pkcs8);
PKey eng_pub(const RefKey& k, bool explicitly = false);               // fails the case when refused
PKey eng_priv(const RefKey& k, bool explicitly = false);
Bytes out_spki(EVP_PKEY* k, bool* ok = nullptr);
Bytes out_pkcs8(EVP_PKEY* k, bool* ok = nullptr);

// signatures: components as big-endian numbers
struct Sig { Bytes s, r; };
bool sign(const RefKey& k, const Bytes& tbs, const BIGNUM* e, Sig* out);      // false: retry needed
bool verify(const Curve& c, const EC_POINT* Q, const Bytes& tbs, const BIGNUM* s, const BIGNUM* r);
Bytes sig_raw(const RefKey& k, const Sig& g);                                 // s||r or its reverse
// the rule of property P06 applied to arbitrary bytes
bool verify_bytes(const RefKey& k, const Bytes& tbs, const Bytes& sig);
}
