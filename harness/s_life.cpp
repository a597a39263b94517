// P23: histories of loading, referencing, initialising, finishing and unloading the engine.
#include "cont.h"
#include <openssl/conf.h>
#include <openssl/pkcs12.h>
#include <dlfcn.h>
#include <sys/wait.h>
#include <unistd.h>
#include <set>
using namespace dk;

namespace
{
std::string so_path() { return std::string(getenv("DSTU_LIBDIR")) + "/engine/dstu.so"; }

struct Life
{
    Src& s;
    ENGINE* e = nullptr;
    int structs = 0, functs = 0;          // references this history holds
    bool listed = false, reg = false;     // in OpenSSL's list; in its tables
    bool conf = false;                    // the configuration module holds a functional reference
    bool randset = false;
    int loads = 0, uses = 0, finishes = 0, late = 0, lookups = 0;
    struct Hash { MdCtx c; Bytes fed; };
    struct Cipher { CipherCtx c; ref::Cfb r; };
    struct Key { RefKey r; PKey k; };
    std::vector<Hash> hashes; std::vector<Cipher> ciphers; std::vector<Key> keys;
    const EVP_MD* md = nullptr; const EVP_CIPHER* ci = nullptr;   // looked up, valid while the engine is held
    std::vector<unsigned long> errors;
    std::string trace;

    explicit Life(Src& src) : s(src) {}
    bool held() const { return structs > 0 || functs > 0 || conf; }
    void did(const char* w) { trace += ' '; trace += w; if (trace.size() > 900) trace.erase(0, 300); }

    void load()
    {
        int how = (int)s.below(4);
        ERR_clear_error();
        if (how <= 1)
        {
            e = ENGINE_by_id("dynamic");
            REQUIRE(e, "the dynamic engine is missing");
            const char* add = how == 0 ? "0" : s.flip() ? "1" : "2";
            bool ok = ENGINE_ctrl_cmd_string(e, "SO_PATH", so_path().c_str(), 0) && (s.flip() || ENGINE_ctrl_cmd_string(e, "ID", "dstu", 0)) &&
                      ENGINE_ctrl_cmd_string(e, "LIST_ADD", add, 0) && ENGINE_ctrl_cmd_string(e, "LOAD", nullptr, 0);
            REQUIRE(ok, "the engine cannot be loaded (load number %d): %s", loads + 1, err_text().c_str());
            structs = 1; listed = how == 1;
            did(how ? "load+list" : "load");
        }
        else if (how == 2)
        {
            setenv("OPENSSL_ENGINES", (std::string(getenv("DSTU_LIBDIR")) + "/engine").c_str(), 1);
            e = ENGINE_by_id("dstu");
            unsetenv("OPENSSL_ENGINES");
            REQUIRE(e, "the engine is not found by its name (load number %d): %s", loads + 1, err_text().c_str());
            structs = 1; listed = true; did("by-id");
        }
        else
        {
            bool dflt = s.flip(), init = s.flip() || dflt;
            std::string c = "openssl_conf = oc\n[oc]\nengines = es\n[es]\ndstu = ds\n[ds]\nengine_id = dstu\ndynamic_path = " + so_path() + "\n";
            if (dflt) c += "default_algorithms = ALL\n";
            c += init ? "init = 1\n" : "init = 0\n";
            Bio b(BIO_new_mem_buf(c.data(), (int)c.size()));
            CONF* cf = NCONF_new(nullptr); long line = 0;
            REQUIRE(NCONF_load_bio(cf, b, &line) == 1, "configuration: line %ld", line);
            int r = CONF_modules_load(cf, "openssl_conf", 0);
            NCONF_free(cf);
            REQUIRE(r == 1, "the engine cannot be loaded through the configuration (load number %d): %s", loads + 1, err_text().c_str());
            conf = init; listed = true;
            e = ENGINE_by_id("dstu");
            REQUIRE(e, "the configured engine is not listed");
            structs = 1; did(dflt ? "conf+default" : init ? "conf+init" : "conf");
            RAND_set_rand_method(RAND_get_rand_method());
        }
        ++loads; reg = true; g_engine = e; md = nullptr; ci = nullptr;
        REQUIRE(!strcmp(ENGINE_get_id(e), "dstu"), "id %s", ENGINE_get_id(e));
        checked();
    }
    // the module is loaded already: OpenSSL refuses another copy, and nothing of the first one changes
    void again()
    {
        ENGINE* x = ENGINE_by_id("dynamic");
        REQUIRE(x, "the dynamic engine is missing");
        bool ok = ENGINE_ctrl_cmd_string(x, "SO_PATH", so_path().c_str(), 0) && ENGINE_ctrl_cmd_string(x, "LIST_ADD", "0", 0) && ENGINE_ctrl_cmd_string(x, "LOAD", nullptr, 0);
        if (ok) { ENGINE_unregister_digests(x); ENGINE_unregister_ciphers(x); ENGINE_unregister_pkey_meths(x); ENGINE_unregister_pkey_asn1_meths(x); }
        ENGINE_free(x); ERR_clear_error();
        if (ok) throw Discard();       // an OpenSSL that allows it; not explored
        did("load-again"); label("second load refused");
    }
    // operations
    void hash(ENGINE* impl)
    {
        const EVP_MD* m = impl ? ENGINE_get_digest(impl, NID_dstu34311) : EVP_get_digestbynid(NID_dstu34311);
        REQUIRE(m, "no digest");
        Bytes d = s.blob(s.len(200)), out(32);
        MdCtx c(EVP_MD_CTX_new());
        unsigned n = 0;
        REQUIRE(EVP_DigestInit_ex(c, m, impl) == 1 && EVP_DigestUpdate(c, d.empty() ? (const void*)"" : d.data(), d.size()) == 1 && EVP_DigestFinal_ex(c, out.data(), &n) == 1,
                "hashing fails: %s", err_text().c_str());
        REQUIRE(n == 32 && out == ref::hash(ref::dflt(), d), "wrong hash of %zu bytes: %s", d.size(), hex(out).c_str());
        checked();
    }
    void crypt(ENGINE* impl)
    {
        const EVP_CIPHER* m = impl ? ENGINE_get_cipher(impl, NID_dstu28147_cfb) : EVP_get_cipherbynid(NID_dstu28147_cfb);
        REQUIRE(m, "no cipher");
        Bytes d = s.blob(1 + s.below(100)), key = s.noise(32), iv = s.noise(8), out(d.size() + 16);
        CipherCtx c(EVP_CIPHER_CTX_new()); int n = 0, n2 = 0;
        bool enc = s.flip();
        REQUIRE(EVP_CipherInit_ex(c, m, impl, key.data(), iv.data(), enc) == 1 && EVP_CipherUpdate(c, out.data(), &n, d.data(), (int)d.size()) == 1 && EVP_CipherFinal_ex(c, out.data() + n, &n2) == 1,
                "encrypting fails: %s", err_text().c_str());
        out.resize(n + n2);
        REQUIRE(out == ref::cfb(ref::dflt(), key.data(), iv.data(), d, enc), "wrong %s text", enc ? "cipher" : "plain");
        checked();
    }
    Key make_key(bool generate)
    {
        Key k;
        if (!generate)
        {
            k.r = gen_key(s, 0);
            k.k = eng_priv(k.r, s.flip());
        }
        else
        {
            int cv = (int)s.below(10);
            PKeyCtx c(s.flip() ? EVP_PKEY_CTX_new_id(NID_dstu4145le, e) : EVP_PKEY_CTX_new_id(NID_dstu4145le, reg ? nullptr : e));
            EVP_PKEY* p = nullptr;
            REQUIRE(c && EVP_PKEY_keygen_init(c) == 1 && EVP_PKEY_CTX_ctrl_str(c, "curve", curve_sn(cv)) > 0 && EVP_PKEY_keygen(c, &p) == 1, "key generation fails: %s", err_text().c_str());
            k.k.reset(p);
            bool ok = false; Bytes p8 = out_pkcs8(p, &ok);
            REQUIRE(ok, "a generated key cannot be written");
            // read back through the model: the public point is the one of the secret
            Bytes spk = out_spki(p, &ok);
            REQUIRE(ok, "a generated key cannot be written");
            const Curve& cu = named(cv);
            RefKey r; r.c = &cu; r.le = true;
            std::vector<mut::T> t;
            REQUIRE(mut::parse(p8, &t) && !t.empty() && t[0].kids.size() >= 3, "a generated key is written as %s", hex(p8).c_str());
            Bytes d = rev(t[0].kids[2].val);
            while (!d.empty() && !d[0] && (int)d.size() > cu.nb) d.erase(d.begin());
            Bytes pad(cu.nb > (int)d.size() ? cu.nb - d.size() : 0, 0); pad.insert(pad.end(), d.begin(), d.end());
            set_secret(r, pad);
            REQUIRE(spki(r) == spk, "the generated public key is not the one of its secret");
            k.r = std::move(r); checked();
        }
        return k;
    }
    void sign(Key& k, bool lateUse)
    {
        Bytes d = s.blob(s.len(100));
        MdCtx c(EVP_MD_CTX_new());
        Bytes sig(400); size_t n = sig.size();
        g_rng.reset(s.bits(2));
        if (lateUse)
        {
            PKeyCtx pc(EVP_PKEY_CTX_new(k.k, nullptr));
            Bytes t = s.noise(32);
            REQUIRE(pc && EVP_PKEY_sign_init(pc) == 1 && EVP_PKEY_sign(pc, sig.data(), &n, t.data(), t.size()) == 1, "signing with a kept key fails: %s", err_text().c_str());
            sig.resize(n);
            REQUIRE(verify_bytes(k.r, t, sig), "a signature made with a kept key is wrong");
            PKeyCtx vc(EVP_PKEY_CTX_new(k.k, nullptr));
            REQUIRE(vc && EVP_PKEY_verify_init(vc) == 1 && EVP_PKEY_verify(vc, sig.data(), sig.size(), t.data(), t.size()) == 1, "verifying with a kept key fails: %s", err_text().c_str());
            t[0] ^= 1;
            REQUIRE(EVP_PKEY_verify(vc, sig.data(), sig.size(), t.data(), t.size()) == 0, "a kept key verifies another text"); ERR_clear_error();
            checked(3); return;
        }
        const EVP_MD* m = ENGINE_get_digest(e, NID_dstu34311);
        REQUIRE(m && EVP_DigestSignInit(c, nullptr, m, e, k.k) == 1 && EVP_DigestSign(c, sig.data(), &n, d.empty() ? (const uint8_t*)"" : d.data(), d.size()) == 1, "signing fails: %s", err_text().c_str());
        sig.resize(n);
        REQUIRE(verify_bytes(k.r, ref::hash(k.r.sbox(), d), sig), "a signature is wrong");
        MdCtx v(EVP_MD_CTX_new());
        REQUIRE(EVP_DigestVerifyInit(v, nullptr, m, e, k.k) == 1, "verify init fails: %s", err_text().c_str());
        bool bad = s.flip(); if (bad) sig[2 + s.below(sig.size() - 2)] ^= 1 << s.below(8);
        int r = EVP_DigestVerify(v, sig.data(), sig.size(), d.empty() ? (const uint8_t*)"" : d.data(), d.size());
        REQUIRE((r == 1) == !bad || (bad && verify_bytes(k.r, ref::hash(k.r.sbox(), d), sig)), "verification of a %s signature gives %d", bad ? "damaged" : "good", r);
        ERR_clear_error(); checked(2);
    }
    void container()
    {
        ct::Container c = ct::gen_any(s, true);
        ct::Store st;
        int r = ct::parse(c, &st.p);
        ERR_clear_error();
        if (!c.readable) return;
        REQUIRE(r && st.p, "a container is refused: %s", c.desc.c_str());
        ct::same_store(st.p, c.want, "container");
        checked();
    }
    void bad_op()
    {
        // something that makes the engine report an error of its own
        PKeyCtx c(EVP_PKEY_CTX_new_id(NID_dstu4145le, e));
        if (c && EVP_PKEY_keygen_init(c) == 1) { EVP_PKEY_CTX_ctrl_str(c, "curve", "nonsense"); EVP_PKEY* p = nullptr; if (EVP_PKEY_keygen(c, &p) == 1) EVP_PKEY_free(p); }
        Key k; k.r = gen_key(s, 0); k.k = eng_pub(k.r);
        Bytes t(32, 1), sig(400); size_t n = sig.size();
        PKeyCtx pc(EVP_PKEY_CTX_new(k.k, e));
        if (pc && EVP_PKEY_sign_init(pc) == 1) REQUIRE(EVP_PKEY_sign(pc, sig.data(), &n, t.data(), t.size()) != 1, "a public key signs");
        n = 3;
        Key k2 = make_key(false);
        PKeyCtx pc2(EVP_PKEY_CTX_new(k2.k, e));
        if (pc2 && EVP_PKEY_sign_init(pc2) == 1) (void)EVP_PKEY_sign(pc2, sig.data(), &n, t.data(), 0);
        (void)EVP_PKEY_verify(pc2, sig.data(), 3, t.data(), t.size());
        // encodings the engine's own decoders refuse, with an error of its library
        ERR_clear_error();
        bool priv = s.flip(); Bytes enc = priv ? pkcs8(k2.r) : spki(k2.r);
        std::vector<mut::T> tr;
        REQUIRE(mut::parse(enc, &tr) && !tr.empty(), "the model's encoding does not parse");
        if (priv) tr[0].kids[1].kids[1] = mut::T{5, Bytes(), {}};
        else switch (s.below(2))
        {
            case 0: tr[0].kids[0].kids[1] = mut::T{5, Bytes(), {}}; break;
            default: { Bytes big(k2.r.c->nb + 5, 0xff); tr[0].kids[1].val = Bytes{0, 4, (uint8_t)big.size()}; tr[0].kids[1].val.insert(tr[0].kids[1].val.end(), big.begin(), big.end()); tr[0].kids[1].kids.clear(); }
        }
        Bytes bad = mut::encode(tr);
        if (priv) REQUIRE(!load_priv(bad), "a key without parameters is read"); else REQUIRE(!load_pub(bad), "a damaged key is read");
        bool own = false;
        for (unsigned long c : collect_errors())
        {
            const char* l = ERR_lib_error_string(c);
            if (l && !strcmp(l, "dstu")) { own = true; const char* r = ERR_reason_error_string(c); REQUIRE(r && *r, "an error of the engine has no reason text (%lx)", c); label("error of the engine's library"); checked(); }
        }
        if (!own) label("no error of the engine's library");
    }
    std::vector<unsigned long> collect_errors()
    {
        unsigned long c; std::vector<unsigned long> got;
        while ((c = ERR_get_error())) { if (errors.size() >= 40) errors.erase(errors.begin(), errors.begin() + 20); errors.push_back(c); got.push_back(c); }
        show_errors();
        return got;
    }
    void show_errors()
    {
        for (unsigned long c : errors)
        {
            char b[300]; ERR_error_string_n(c, b, sizeof b);
            const char* l = ERR_lib_error_string(c); const char* r = ERR_reason_error_string(c);
            volatile size_t n = (l ? strlen(l) : 0) + (r ? strlen(r) : 0); (void)n;
        }
        ++lookups;
    }
    void use()
    {
        ++uses;
        if (loads > 1) label("use after a reload");
        if (finishes) label("use after a finish");
        switch (s.below(9))
        {
            case 0: hash(e); did("hash"); break;
            case 1: crypt(e); did("crypt"); break;
            case 2: if (reg) { hash(nullptr); did("hash/implicit"); } break;
            case 3: if (reg) { crypt(nullptr); did("crypt/implicit"); } break;
            case 4: if (reg) { Key k = make_key(false); sign(k, false); if (s.flip()) keys.push_back(std::move(k)); did("sign"); } break;
            case 5: if (reg) { Key k = make_key(true); if (k.k) { sign(k, false); if (s.flip()) keys.push_back(std::move(k)); } did("keygen"); } break;
            case 6: if (reg) { container(); did("container"); } break;
            case 7: if (reg) { bad_op(); did("errors"); } break;
            default: // pointers looked up once and used again later
            {
                if (!md) md = s.flip() ? ENGINE_get_digest(e, NID_dstu34311) : EVP_get_digestbyname("dstu34311");
                if (!ci) ci = s.flip() ? ENGINE_get_cipher(e, NID_dstu28147_cfb) : EVP_get_cipherbyname("dstu28147-cfb");
                if (md)
                {
                    Bytes d = s.blob(s.below(90)), out(32); unsigned n = 0;
                    REQUIRE(EVP_MD_get_size(md) == 32 && EVP_MD_get_type(md) == NID_dstu34311 && EVP_Digest(d.empty() ? (const void*)"" : d.data(), d.size(), out.data(), &n, md, e) == 1 && out == ref::hash(ref::dflt(), d), "a digest looked up earlier is wrong");
                    checked();
                }
                if (ci)
                {
                    REQUIRE(EVP_CIPHER_get_nid(ci) == NID_dstu28147_cfb && EVP_CIPHER_get_key_length(ci) == 32, "a cipher looked up earlier is wrong"); checked();
                    Bytes d = s.blob(1 + s.below(40)), key = s.noise(32), iv = s.noise(8), out(d.size() + 8); int n = 0;
                    CipherCtx c(EVP_CIPHER_CTX_new());
                    REQUIRE(EVP_EncryptInit_ex(c, ci, e, key.data(), iv.data()) == 1 && EVP_EncryptUpdate(c, out.data(), &n, d.data(), (int)d.size()) == 1, "encrypting fails");
                    out.resize(n); REQUIRE(out == ref::cfb(ref::dflt(), key.data(), iv.data(), d, true), "wrong cipher text"); checked();
                }
                did("kept-method"); label("method looked up earlier");
            }
        }
    }
    void keep()
    {
        if (s.flip())
        {
            if (hashes.size() >= 4) return;
            Hash h; h.c.reset(EVP_MD_CTX_new());
            REQUIRE(EVP_DigestInit_ex(h.c, ENGINE_get_digest(e, NID_dstu34311), e) == 1, "digest init fails: %s", err_text().c_str());
            hashes.push_back(std::move(h)); did("keep-hash");
        }
        else
        {
            if (ciphers.size() >= 4) return;
            Cipher c; c.c.reset(EVP_CIPHER_CTX_new());
            Bytes key = s.noise(32), iv = s.noise(8);
            REQUIRE(EVP_EncryptInit_ex(c.c, ENGINE_get_cipher(e, NID_dstu28147_cfb), e, key.data(), iv.data()) == 1, "cipher init fails: %s", err_text().c_str());
            c.r.s = ref::dflt(); memcpy(c.r.key, key.data(), 32); memcpy(c.r.oiv, iv.data(), 8); c.r.start();
            ciphers.push_back(std::move(c)); did("keep-cipher");
        }
    }
    void touch()     // go on with something started earlier
    {
        if (!held()) { ++late; label("object outlives every other reference"); }
        switch (s.below(3))
        {
            case 0: if (!hashes.empty())
            {
                size_t i = s.below(hashes.size()); Hash& h = hashes[i];
                Bytes d = s.blob(1 + s.below(70));
                REQUIRE(EVP_DigestUpdate(h.c, d.data(), d.size()) == 1, "update of a kept context fails"); h.fed.insert(h.fed.end(), d.begin(), d.end());
                if (s.flip())
                {
                    Bytes out(32); unsigned n;
                    if (s.flip()) { MdCtx c2(EVP_MD_CTX_new()); REQUIRE(EVP_MD_CTX_copy_ex(c2, h.c) == 1, "copy of a kept context fails"); hashes[i].c = std::move(c2); }
                    REQUIRE(EVP_DigestFinal_ex(hashes[i].c, out.data(), &n) == 1 && out == ref::hash(ref::dflt(), hashes[i].fed), "a kept digest context gives a wrong value");
                    checked(); hashes.erase(hashes.begin() + i);
                }
                did("hash+");
            } break;
            case 1: if (!ciphers.empty())
            {
                size_t i = s.below(ciphers.size()); Cipher& c = ciphers[i];
                Bytes d = s.blob(1 + s.below(70)), out(d.size() + 8); int n;
                REQUIRE(EVP_EncryptUpdate(c.c, out.data(), &n, d.data(), (int)d.size()) == 1, "update of a kept cipher context fails");
                out.resize(n); REQUIRE(out == c.r.run(d, true), "a kept cipher context gives a wrong text"); checked();
                if (s.chance(80)) ciphers.erase(ciphers.begin() + i);
                did("crypt+");
            } break;
            default: if (!keys.empty())
            {
                size_t i = s.below(keys.size());
                sign(keys[i], true);
                if (s.chance(80)) keys.erase(keys.begin() + i);
                did("sign+");
            }
        }
    }
    void unregister()
    {
        if (s.flip()) { ENGINE_unregister_digests(e); ENGINE_unregister_ciphers(e); ENGINE_unregister_pkey_meths(e); ENGINE_unregister_pkey_asn1_meths(e); }
        else { ENGINE_unregister_pkey_asn1_meths(e); ENGINE_unregister_pkey_meths(e); ENGINE_unregister_ciphers(e); ENGINE_unregister_digests(e); }
        ENGINE_unregister_RAND(e);
        reg = false; did("unregister");
    }
    void unload()
    {
        if (randset) { RAND_set_rand_method(harness_rand); randset = false; }
        unregister();
        if (listed) { REQUIRE(ENGINE_remove(e) == 1, "the engine cannot be removed from the list"); listed = false; }
        if (conf) { CONF_modules_finish(); conf = false; }
        bool ff = s.flip();      // which kind of reference goes last
        for (int round = 0; round < 2; ++round)
        {
            if ((round == 0) == ff) { while (functs > 0) { --functs; REQUIRE(ENGINE_finish(e) == 1, "finish fails: %s", err_text().c_str()); ++finishes; } }
            else while (structs > 0) { --structs; REQUIRE(ENGINE_free(e) == 1, "free fails: %s", err_text().c_str()); }
        }
        did("unload");
        md = nullptr; ci = nullptr;
        if (objects()) { label("unloaded while objects are alive"); return; }
        e = nullptr; g_engine = nullptr;
        gone();
    }
    bool objects() const { return !hashes.empty() || !ciphers.empty() || !keys.empty(); }
    void gone()
    {
        // nothing of the engine is reachable any more; what OpenSSL still finds must be alive
        label("looked up after unloading");
        if (void* h = dlopen(so_path().c_str(), RTLD_NOLOAD | RTLD_LAZY)) { dlclose(h); label("module still mapped"); }
        const EVP_MD* m = EVP_get_digestbyname("dstu34311");
        const EVP_CIPHER* c = EVP_get_cipherbyname("dstu28147-cfb");
        if (m)
        {
            REQUIRE(EVP_MD_get_type(m) == NID_dstu34311 && EVP_MD_get_size(m) == 32, "after unloading, the digest found by name is released memory");
            Bytes out(32); unsigned n; if (EVP_Digest("abc", 3, out.data(), &n, m, nullptr) == 1) REQUIRE(out == ref::hash(ref::dflt(), Bytes{'a', 'b', 'c'}), "wrong hash");
        }
        if (c) REQUIRE(EVP_CIPHER_get_nid(c) == NID_dstu28147_cfb && EVP_CIPHER_get_key_length(c) == 32 && EVP_CIPHER_get_iv_length(c) == 8, "after unloading, the cipher found by name is released memory");
        EVP_MD_do_all([](const EVP_MD* q, const char*, const char*, void*) { if (q) { volatile int x = EVP_MD_get_size(q); (void)x; } }, nullptr);
        EVP_CIPHER_do_all([](const EVP_CIPHER* q, const char*, const char*, void*) { if (q) { volatile int x = EVP_CIPHER_get_nid(q); (void)x; } }, nullptr);
        EVP_PKEY_CTX* pc = EVP_PKEY_CTX_new_id(NID_dstu4145le, nullptr); EVP_PKEY_CTX_free(pc);
        RefKey k = gen_key(s, 0);
        PKey p = load_pub(spki(k));         // nobody understands it now, or somebody does
        ERR_clear_error();
        show_errors();
        checked();
    }
    const RAND_METHOD* harness_rand = nullptr;
};

void history(Src& s)
{
    Life l(s);
    l.harness_rand = RAND_get_rand_method();
    OPENSSL_load_builtin_modules(); ENGINE_add_conf_module();
    if (s.flip()) { unsetenv("OPENSSL_ENGINES"); ENGINE* x = ENGINE_by_id("dstu"); if (x) ENGINE_free(x); ERR_clear_error(); }
    int ops = 4 + (int)s.below(40);
    for (int i = 0; i < ops; ++i)
    {
        if (!l.e) { l.load(); continue; }
        if (!l.held())
        {
            // only contexts and keys keep the engine alive
            if (l.objects()) { l.touch(); if (s.chance(60)) { l.hashes.clear(); l.ciphers.clear(); l.keys.clear(); } }
            if (!l.objects()) { l.e = nullptr; g_engine = nullptr; l.did("last-object"); l.gone(); }
            continue;
        }
        switch (s.below(16))
        {
            case 0: case 1: if (l.functs < 4) { REQUIRE(ENGINE_init(l.e) == 1, "ENGINE_init fails: %s", err_text().c_str()); ++l.functs; l.did("init"); checked(); } break;
            case 2: case 3: if (l.functs > 0 && (l.functs > 1 || l.structs > 0)) { REQUIRE(ENGINE_finish(l.e) == 1, "ENGINE_finish fails: %s", err_text().c_str()); --l.functs; ++l.finishes; l.did("finish"); checked(); } break;
            case 4: if (l.structs < 4) { REQUIRE(ENGINE_up_ref(l.e) == 1, "up_ref"); ++l.structs; l.did("up_ref"); } break;
            case 5: if (l.structs > 1 || (l.structs == 1 && l.functs > 0)) { REQUIRE(ENGINE_free(l.e) == 1, "ENGINE_free fails"); --l.structs; l.did("free"); } break;
            case 6:
            {
                ENGINE* x = ENGINE_by_id("dstu");
                ERR_clear_error();
                if (l.listed) { REQUIRE(x == l.e, "ENGINE_by_id gives another engine"); ++l.structs; l.did("by_id"); checked(); }
                else if (x) ENGINE_free(x);
                break;
            }
            case 7:
                if (s.flip()) REQUIRE(ENGINE_set_default(l.e, ENGINE_METHOD_ALL & ~ENGINE_METHOD_RAND) == 1, "ENGINE_set_default fails: %s", err_text().c_str());
                else REQUIRE(ENGINE_register_complete(l.e) == 1, "ENGINE_register_complete fails: %s", err_text().c_str());
                l.reg = true; l.did("default"); checked(); break;
            case 8: if (s.chance(80)) { l.unregister(); } break;
            case 9:
                if (!l.randset) { REQUIRE(RAND_set_rand_engine(l.e) == 1, "RAND_set_rand_engine fails: %s", err_text().c_str()); l.randset = true; l.did("rand"); }
                else { RAND_set_rand_method(l.harness_rand); l.randset = false; l.did("rand-off"); }
                break;
            case 10: l.keep(); break;
            case 11: if (s.chance(40)) l.again(); else l.touch(); break;
            case 12: if (s.chance(110)) l.unload(); break;
            default: l.use();
        }
        if (l.randset && s.flip())
        {
            Bytes a(16), b(16);
            REQUIRE(RAND_bytes(a.data(), 16) == 1 && RAND_bytes(b.data(), 16) == 1, "the engine gives no random bytes");
            REQUIRE(a != b, "the engine repeats its random bytes"); checked();
        }
    }
    if (l.e && l.held()) l.unload();
    l.hashes.clear(); l.ciphers.clear(); l.keys.clear();
    if (l.e) l.gone();
    if (l.uses && (l.loads > 1 || l.finishes)) nontrivial();
    note("loads=%d uses=%d finishes=%d late=%d:%s", l.loads, l.uses, l.finishes, l.late, l.trace.c_str());
}
}

SCENARIO("P23", lifecycles, 1500, 30000, FORK_PER_CASE | NO_ENGINE, "the engine was used in a history with a finish or a reload")
{
    history(s);
}

// the last reference goes although the tables binding put the engine into still name it
SCENARIO("P23", unregistered_unload, 24, 200, FORK_PER_CASE | NO_ENGINE | SLOW, "every case")
{
    Life l(s);
    l.harness_rand = RAND_get_rand_method();
    l.e = ENGINE_by_id("dynamic");
    REQUIRE(l.e && ENGINE_ctrl_cmd_string(l.e, "SO_PATH", so_path().c_str(), 0) && ENGINE_ctrl_cmd_string(l.e, "LIST_ADD", "0", 0) && ENGINE_ctrl_cmd_string(l.e, "LOAD", nullptr, 0), "load: %s", err_text().c_str());
    g_engine = l.e;
    int uses = (int)s.below(3);
    for (int i = 0; i < uses; ++i) { if (s.flip()) l.hash(l.e); else l.crypt(l.e); }
    bool init = s.flip();
    if (init) { REQUIRE(ENGINE_init(l.e) == 1, "init"); l.hash(l.e); if (s.flip()) ENGINE_finish(l.e); else { ENGINE_free(l.e); init = false; ENGINE_finish(l.e); l.e = nullptr; } }
    if (l.e) ENGINE_free(l.e);
    int how = (int)s.below(4);
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0)
    {
        switch (how)
        {
            case 0: EVP_PKEY_CTX_free(EVP_PKEY_CTX_new_id(NID_dstu4145le, nullptr)); break;
            case 1: ENGINE_finish(ENGINE_get_digest_engine(NID_dstu34311)); break;
            case 2: { ENGINE* x = ENGINE_get_cipher_engine(NID_dstu28147_cfb); if (x) { volatile const void* q = ENGINE_get_cipher(x, NID_dstu28147_cfb); (void)q; ENGINE_finish(x); } break; }
            default: { EVP_PKEY* k = EVP_PKEY_new(); EVP_PKEY_set_type(k, NID_dstu4145be); EVP_PKEY_free(k); }
        }
        _exit(0);
    }
    int st = 0; waitpid(p, &st, 0);
    nontrivial(); checked();
    note("uses=%d lookup=%d", uses, how);
    REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0, "unregistered unload: a lookup uses the released engine");
}
