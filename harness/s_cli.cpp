// P29: the openssl utility with the engine, as the documentation shows it
#include "cont.h"
#include <openssl/cms.h>
#include <openssl/pem.h>
#include <openssl/pkcs7.h>
#include <algorithm>
#include <set>
#include <dirent.h>
#include <fcntl.h>
#include <spawn.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace dk;

namespace
{
struct Run { int code = -1, sig = 0; Bytes out; std::string err; bool ok() const { return code == 0; } };
struct Dir
{
    std::string p;
    Dir() { const char* r = getenv("DSTU_SCRATCH"); p = std::string(r ? r : "/tmp") + "/dstuc-XXXXXX"; if (!mkdtemp(&p[0])) { fprintf(stderr, "no scratch directory\n"); _exit(3); } }
    ~Dir()
    {
        if (DIR* d = opendir(p.c_str())) { while (dirent* e = readdir(d)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) unlink((p + "/" + e->d_name).c_str()); closedir(d); }
        rmdir(p.c_str());
    }
    std::string at(const char* n) const { return p + "/" + n; }
    void put(const char* n, const Bytes& b) const { FILE* f = fopen(at(n).c_str(), "wb"); if (!f || fwrite(b.data(), 1, b.size(), f) != b.size()) { if (f) fclose(f); throw Discard(); } fclose(f); }
    Bytes get(const char* n, bool* is = nullptr) const { Bytes b; FILE* f = fopen(at(n).c_str(), "rb"); if (is) *is = f != nullptr; if (!f) return b; uint8_t t[4096]; size_t k; while ((k = fread(t, 1, sizeof t, f)) > 0) b.insert(b.end(), t, t + k); fclose(f); return b; }
};
struct Cli
{
    Src& s; Dir d; bool config, san; uint64_t seed; std::string libs; int runs = 0; std::vector<std::string> log;
    explicit Cli(Src& src) : s(src)
    {
        config = s.chance(90); seed = s.bits(4);
        const char* rt = getenv("DSTU_SAN_RT"); san = rt && *rt && s.flip(); libs = getenv(san ? "DSTU_SAN_LIBDIR" : "DSTU_LIBDIR"); if (san) label("under AddressSanitizer");
        std::string lib = libs + "/engine";
        std::string c = "openssl_conf = i\n[i]\nengines = e\n[e]\ndstu = d\n[d]\nengine_id = dstu\ndynamic_path = " + lib + "/dstu.so\n";
        switch (s.below(3)) { case 0: c += "default_algorithms = ALL\ninit = 1\n"; break; case 1: c += "init = 1\ndefault_algorithms = ALL\n"; break; default: c += "default_algorithms = ALL\n"; }
        d.put("conf", Bytes(c.begin(), c.end()));
        if (config) label("configuration file"); else label("-engine");
    }
    // args: the subcommand first; the engine is named right after it
    Run run(std::vector<std::string> a, const Bytes& in = Bytes())
    {
        // entropy files, read and written through the default generator
        bool rnd = a[0] != "genpkey" && a[0] != "pkey" && a[0] != "engine" && s.below(8) == 0, wr = rnd && s.flip();
        if (rnd) { d.put("seed", s.noise(1 + s.below(60))); label("-rand"); a.insert(a.begin() + 1, {"-rand", d.at("seed")}); if (wr) a.insert(a.begin() + 1, {"-writerand", d.at("seed2")}); }
        if (!config) { a.insert(a.begin() + 1, {"-engine", "dstu"}); }
        a.insert(a.begin(), "openssl");
        d.put("in", in); std::string so = d.at("stdout"), se = d.at("stderr"), si = d.at("in");
        std::vector<std::string> ev = {"PATH=/usr/local/bin:/usr/bin:/bin", "LC_ALL=C", "HOME=" + d.p, "OPENSSL_CONF=" + (config ? d.at("conf") : std::string("/dev/null")),
            "OPENSSL_ENGINES=" + libs + "/engine", "LD_PRELOAD=" + (san ? std::string(getenv("DSTU_SAN_RT")) + " " : std::string()) + getenv("DSTU_SHIM"), "DSTU_SHIM_SEED=" + std::to_string(seed * 1000 + runs++), "MALLOC_PERTURB_=" + std::to_string(1 + seed % 250)};
        for (const char* n : {"ASAN_OPTIONS", "UBSAN_OPTIONS"}) if (const char* v = getenv(n)) ev.push_back(std::string(n) + "=" + v);
        std::vector<char*> av, evp; for (auto& x : a) av.push_back(&x[0]); av.push_back(nullptr); for (auto& x : ev) evp.push_back(&x[0]); evp.push_back(nullptr);
        posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
        posix_spawn_file_actions_addopen(&fa, 0, si.c_str(), O_RDONLY, 0); posix_spawn_file_actions_addopen(&fa, 1, so.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); posix_spawn_file_actions_addopen(&fa, 2, se.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
        pid_t pid; int rc = posix_spawnp(&pid, "openssl", &fa, nullptr, av.data(), evp.data()); posix_spawn_file_actions_destroy(&fa);
        if (rc) throw Discard();
        int st = 0; while (waitpid(pid, &st, 0) < 0) if (errno != EINTR) throw Discard();
        Run r; r.out = d.get("stdout"); Bytes e = d.get("stderr"); r.err.assign(e.begin(), e.end());
        std::string l; for (size_t i = 1; i < a.size(); ++i) { std::string x = a[i]; size_t at = x.rfind('/'); if (at != std::string::npos && x.compare(0, d.p.size(), d.p) == 0) x = x.substr(at + 1); if (x.size() > 40) x = x.substr(0, 37) + "..."; l += x + " "; }
        log.push_back(l); note("[%s]", l.c_str());
        if (WIFSIGNALED(st)) { r.sig = WTERMSIG(st); FAIL("openssl %sis ended by signal %d: %s", l.c_str(), r.sig, r.err.substr(0, 400).c_str()); }
        r.code = WEXITSTATUS(st); REQUIRE(r.code != 99 || !san, "openssl %sis stopped by the sanitizer: %s", l.c_str(), r.err.substr(0, 1500).c_str());
        if (wr && r.ok())
        {
            Bytes w = d.get("seed2"); unlink(d.at("seed2").c_str()); std::set<Bytes> q; for (size_t i = 0; i + 32 <= w.size(); i += 32) q.insert(Bytes(w.begin() + i, w.begin() + i + 32));
            REQUIRE(w.size() == 1024 && q.size() == 32, "openssl %swrites %zu bytes of entropy, %zu different blocks", l.c_str(), w.size(), q.size()); checked(); label("-writerand");
        }
        return r;
    }
    Run good(std::vector<std::string> a, const Bytes& in = Bytes()) { Run r = run(a, in); REQUIRE(r.ok(), "openssl %sgives %d: %s", log.back().c_str(), r.code, r.err.substr(0, 600).c_str()); checked(); return r; }
    Run bad(std::vector<std::string> a, const Bytes& in = Bytes()) { Run r = run(a, in); REQUIRE(!r.ok(), "openssl %ssucceeds", log.back().c_str()); checked(); return r; }
};
std::string str(const Bytes& b) { return std::string(b.begin(), b.end()); }
std::string plain_hex(const Bytes& b) { std::string r; char t[3]; for (auto x : b) { snprintf(t, sizeof t, "%02x", x); r += t; } return r; }
Bytes pem(const char* name, const Bytes& der) { Bio b(BIO_new(BIO_s_mem())); PEM_write_bio(b, name, "", der.data(), (long)der.size()); char* p; long n = BIO_get_mem_data(b, &p); return Bytes(p, p + n); }
Bytes unpem(const Bytes& t, std::string* name) { Bio b(BIO_new_mem_buf(t.data(), (int)t.size())); char *n = nullptr, *h = nullptr; uint8_t* d = nullptr; long l = 0; if (!PEM_read_bio(b, &n, &h, &d, &l)) { ERR_clear_error(); return Bytes(); } if (name) *name = n; Bytes r(d, d + l); OPENSSL_free(n); OPENSSL_free(h); OPENSSL_free(d); return r; }
// digests printed by dgst
Bytes printed(const std::string& line) { size_t e = line.rfind("= "); std::string h = e == std::string::npos ? line : line.substr(e + 2); while (!h.empty() && !isxdigit((uint8_t)h.back())) h.pop_back(); return h.size() == 64 && h.find_first_not_of("0123456789abcdef") == std::string::npos ? unhex(h) : Bytes(); }
std::string gen_word(Src& s) { static const char a[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.+"; size_t n = 1 + s.below(s.chance(60) ? 70 : 14); std::string r; for (size_t i = 0; i < n; ++i) r += a[s.below(sizeof a - 1)]; return r; }
Cert cert_for(const RefKey& k)
{
    Bytes alg = der::seqb(alg_oid(k.le)), name = der::seqb(der::setb(der::seq({der::oid("2.5.4.3"), der::utf8("signer")})));
    static const char* t0 = "200101000000Z"; static const char* t1 = "491231235959Z";
    Bytes val = der::seq({der::tlv(0x17, Bytes(t0, t0 + 13)), der::tlv(0x17, Bytes(t1, t1 + 13))});
    Bytes d = der::seq({der::seq({der::ctx(0, der::integer(2)), der::integer(5), alg, name, val, name, spki(k)}), alg, der::bits(Bytes(64, 1))});
    const uint8_t* p = d.data(); Cert x(d2i_X509(nullptr, &p, (long)d.size())); REQUIRE(x, "no certificate"); return x;
}
Bytes der_of(X509* x) { uint8_t* t = nullptr; int n = i2d_X509(x, &t); Bytes r(t, t + n); OPENSSL_free(t); return r; }
// the key inside a PKCS#8 structure; it has to be the canonical one
RefKey key_in(const Bytes& p8, bool le, const Curve& c, const Bytes& table, const char* what)
{
    std::vector<mut::T> t; REQUIRE(mut::parse(p8, &t) && t.size() == 1 && t[0].kids.size() >= 3, "%s: no private key (%s)", what, hex(p8, 60).c_str());
    RefKey k; k.c = &c; k.le = le; k.table = table; Bytes d = rev(t[0].kids[2].val); while (d.size() > 1 && !d[0]) d.erase(d.begin());
    REQUIRE((int)d.size() <= c.nb, "%s: a secret of %zu bytes", what, d.size()); Bn b(b2bn(d)); REQUIRE(!BN_is_zero(b) && BN_cmp(b, c.N) < 0, "%s: secret out of range", what);
    d.insert(d.begin(), c.nb - d.size(), 0); set_secret(k, d);
    RefKey w = clone(k); w.table = canonical_table(table); Bytes want = pkcs8(w);
    REQUIRE(p8 == want, "%s: the key is %s, expected %s", what, hex(p8).c_str(), hex(want).c_str()); checked(); return k;
}

void flow_digest(Cli& c, Src& s)
{
    Bytes m = s.blob(s.len(s.chance(30) ? 70000 : 2000)); c.d.put("m", m); Bytes want = ref::hash(ref::dflt(), m);
    switch (s.below(5))
    {
        case 0: { Run r = c.good({"dgst", "-dstu34311", c.d.at("m")}); REQUIRE(printed(str(r.out)) == want, "dgst prints %s, expected %s", str(r.out).c_str(), hex(want).c_str()); break; }
        case 1: { Run r = c.good({"dgst", "-dstu34311", "-binary"}, m); REQUIRE(r.out == want, "dgst of a stream gives %s, expected %s", hex(r.out).c_str(), hex(want).c_str()); break; }
        case 2: { Bytes m2 = s.blob(s.len(300)); c.d.put("m2", m2); Run r = c.good({"dgst", "-dstu34311", c.d.at("m"), c.d.at("m2"), c.d.at("m")}); std::string o = str(r.out); size_t a = o.find('\n'), b = o.find('\n', a + 1);
            REQUIRE(a != std::string::npos && b != std::string::npos && printed(o.substr(0, a)) == want && printed(o.substr(a + 1, b - a - 1)) == ref::hash(ref::dflt(), m2) && printed(o.substr(b + 1)) == want, "dgst of three files prints %s", o.c_str()); break; }
        case 3: { std::string k = gen_word(s); Run r = c.good({"dgst", "-dstu34311", "-hmac", k, c.d.at("m")}); Bytes w = ref::hmac(ref::dflt(), Bytes(k.begin(), k.end()), m); REQUIRE(printed(str(r.out)) == w, "HMAC with key %s is %s, expected %s", k.c_str(), str(r.out).c_str(), hex(w).c_str()); break; }
        default: { Bytes k = s.noise(1 + s.below(80)); Run r = c.good({"dgst", "-dstu34311", "-mac", "HMAC", "-macopt", "hexkey:" + plain_hex(k), c.d.at("m")}); Bytes w = ref::hmac(ref::dflt(), k, m); REQUIRE(printed(str(r.out)) == w, "HMAC is %s, expected %s", str(r.out).c_str(), hex(w).c_str()); }
    }
    checked(); label("dgst");
}
void flow_enc(Cli& c, Src& s)
{
    Bytes m = s.blob(s.len(s.chance(30) ? 40000 : 1500)); c.d.put("m", m); Bytes key, iv; std::vector<std::string> kv; std::string how; 
    switch (s.below(3))
    {
        case 0: key = s.noise(32); iv = s.noise(8); kv = {"-K", plain_hex(key), "-iv", plain_hex(iv)}; break;
        case 1:
        {
            std::string pw = gen_word(s); Bytes salt = s.noise(8); unsigned it = 1 + (unsigned)s.below(40); Bytes o = ref::pbkdf2(ref::dflt(), Bytes(pw.begin(), pw.end()), salt, it, 40);
            key.assign(o.begin(), o.begin() + 32); iv.assign(o.begin() + 32, o.end()); kv = {"-pbkdf2", "-iter", std::to_string(it), "-md", "dstu34311", "-k", pw, "-S", plain_hex(salt)}; label("enc -pbkdf2"); break;
        }
        default:
        {
            std::string pw = gen_word(s); Bytes salt = s.noise(8), all, prev;
            while (all.size() < 40) { Bytes t = prev; t.insert(t.end(), pw.begin(), pw.end()); t.insert(t.end(), salt.begin(), salt.end()); prev = ref::hash(ref::dflt(), t); all.insert(all.end(), prev.begin(), prev.end()); }
            key.assign(all.begin(), all.begin() + 32); iv.assign(all.begin() + 32, all.begin() + 40); kv = {"-md", "dstu34311", "-k", pw, "-S", plain_hex(salt)}; label("enc with a password");
        }
    }
    if (s.flip()) { kv.push_back("-bufsize"); kv.push_back(std::to_string(1 + s.below(3000))); }
    if (m.empty()) m = Bytes(1, 'x'), c.d.put("m", m);
    Bytes want = ref::cfb(ref::dflt(), key.data(), iv.data(), m, true);
    auto with = [&](std::vector<std::string> a) { a.insert(a.end(), kv.begin(), kv.end()); return a; };
    c.good(with({"enc", "-dstu28147-cfb", "-in", c.d.at("m"), "-out", c.d.at("x")})); Bytes x = c.d.get("x");
    REQUIRE(x == want || (x.size() == want.size() + 16 && !memcmp(x.data(), "Salted__", 8) && std::equal(want.begin(), want.end(), x.begin() + 16)), "enc gives %s, expected %s", hex(x, 40).c_str(), hex(want, 40).c_str()); checked();
    c.good(with({"enc", "-d", "-dstu28147-cfb", "-in", c.d.at("x"), "-out", c.d.at("y")})); REQUIRE(c.d.get("y") == m, "enc -d does not give the text back"); checked(); label("enc");
}
void use_key(Cli& c, Src& s, const RefKey& k)       // k.pem holds the private key
{
    RefKey w = clone(k); w.table = canonical_table(k.table);
    if (s.flip())
    {
        Run r = c.good({"pkey", "-in", c.d.at("k.pem"), "-pubout", "-outform", "DER", "-out", c.d.at("p.der")}); (void)r; Bytes p = c.d.get("p.der");
        REQUIRE(p == spki(w), "the public key is %s, expected %s", hex(p).c_str(), hex(spki(w)).c_str()); checked(); label("pkey -pubout");
    }
    c.d.put("p.pem", pem("PUBLIC KEY", spki(w)));
    if (s.chance(60))
    {
        PKey q = load_priv(pkcs8(w)); bool pub = s.flip(); Bio b(BIO_new(BIO_s_mem())); REQUIRE((pub ? EVP_PKEY_print_public : EVP_PKEY_print_private)(b, q, 0, nullptr) == 1, "cannot print a key"); char* t; long n = BIO_get_mem_data(b, &t);
        std::vector<std::string> a = {"pkey", "-in", c.d.at("k.pem"), "-noout", pub ? "-text_pub" : "-text"}; Run r = c.good(a); REQUIRE(r.out == Bytes(t, t + n), "pkey -text prints %s, expected %s", str(r.out).c_str(), std::string(t, n).c_str()); checked(); label("pkey -text");
    }
    if (s.flip())
    {
        Bytes m = s.blob(s.len(600)); c.d.put("m", m); std::vector<std::string> sg = {"dgst", "-dstu34311", "-sign", c.d.at("k.pem"), "-out", c.d.at("s"), c.d.at("m")}; if (s.chance(80)) { sg.erase(sg.begin() + 1); label("dgst -sign without a digest"); } c.good(sg); Bytes sig = c.d.get("s"), tbs = ref::hash(k.sbox(), m);
        REQUIRE(verify_bytes(k, tbs, sig), "dgst -sign gives a wrong signature %s (%s)", hex(sig).c_str(), describe(k).c_str()); checked();
        Run r = c.good({"dgst", "-dstu34311", "-verify", c.d.at("p.pem"), "-signature", c.d.at("s"), c.d.at("m")}); 
        if (s.flip()) c.good({"dgst", "-dstu34311", "-prverify", c.d.at("k.pem"), "-signature", c.d.at("s"), c.d.at("m")});
        if (s.flip()) { Bytes b = sig; b[2 + s.below(b.size() - 2)] ^= uint8_t(1 << s.below(8)); bool ok = verify_bytes(k, tbs, b); c.d.put("s", b); if (!ok) c.bad({"dgst", "-dstu34311", "-verify", c.d.at("p.pem"), "-signature", c.d.at("s"), c.d.at("m")}); }
        else { m.push_back(1); c.d.put("m", m); if (!verify_bytes(k, ref::hash(k.sbox(), m), sig)) c.bad({"dgst", "-dstu34311", "-verify", c.d.at("p.pem"), "-signature", c.d.at("s"), c.d.at("m")}); }
        label("dgst -sign");
    }
    else
    {
        Bytes t = s.noise(32); c.d.put("t", t); c.good({"pkeyutl", "-sign", "-inkey", c.d.at("k.pem"), "-in", c.d.at("t"), "-out", c.d.at("s")}); Bytes sig = c.d.get("s");
        REQUIRE(verify_bytes(k, t, sig), "pkeyutl -sign gives a wrong signature %s (%s)", hex(sig).c_str(), describe(k).c_str()); checked();
        c.good({"pkeyutl", "-verify", "-pubin", "-inkey", c.d.at("p.pem"), "-in", c.d.at("t"), "-sigfile", c.d.at("s")});
        t[s.below(std::min(k.c->m / 8, 32))] ^= uint8_t(1 << s.below(8)); c.d.put("t", t); if (!verify_bytes(k, t, sig)) c.bad({"pkeyutl", "-verify", "-pubin", "-inkey", c.d.at("p.pem"), "-in", c.d.at("t"), "-sigfile", c.d.at("s")}); label("pkeyutl");
    }
}
void flow_genpkey(Cli& c, Src& s)
{
    bool le = s.flip(); std::vector<std::string> a = {"genpkey", "-algorithm", le ? "dstu4145le" : "dstu4145be", "-out", c.d.at("k.pem")}; const Curve* cv = &named(6); Bytes table;
    bool first = s.flip(); int ci = (int)s.below(11); if (s.flip()) { table = gen_table(s); if (!memcmp(table.data(), Bytes(64).data(), 64)) throw Discard(); }
    auto curve = [&] { if (ci < 10) { a.push_back("-pkeyopt"); a.push_back(std::string("curve:") + curve_sn(ci)); cv = &named(ci); } };
    auto sbox = [&] { if (!table.empty()) { a.push_back("-pkeyopt"); a.push_back("sbox:" + plain_hex(table)); } };
    if (first) { curve(); sbox(); } else { sbox(); curve(); }
    if (s.chance(30)) { std::vector<std::string> b = a; b.push_back("-pkeyopt"); b.push_back(s.flip() ? "curve:uacurve10" : "sbox:12"); c.bad(b); }
    c.good(a); std::string nm; Bytes p8 = unpem(c.d.get("k.pem"), &nm); REQUIRE(nm == "PRIVATE KEY", "genpkey writes a \"%s\"", nm.c_str());
    RefKey k = key_in(p8, le, *cv, table, "genpkey"); label("genpkey"); use_key(c, s, k);
}
void flow_key(Cli& c, Src& s)
{
    RefKey k = gen_key(s, 0); bool explicitly = s.flip(); Bytes p8 = pkcs8(k, explicitly); c.d.put("k.pem", pem("PRIVATE KEY", p8));
    if (s.below(3) == 0)
    {
        // protected with a password, by the utility and back
        std::string pw = gen_word(s), no = pw + "x"; std::vector<std::string> a = {"pkcs8", "-topk8", "-in", c.d.at("k.pem"), "-out", c.d.at("e.pem"), "-v2", "dstu28147-cfb", "-iter", std::to_string(1 + s.below(50)), "-passout", "pass:" + pw};
        int prf = (int)s.below(3); if (prf == 1) { a.push_back("-v2prf"); a.push_back("hmacWithDstu34311"); } else if (prf == 2) { a.push_back("-v2prf"); a.push_back("hmacWithSHA256"); } else label("default PRF"); c.good(a);
        std::string nm; Bytes e = unpem(c.d.get("e.pem"), &nm); REQUIRE(nm == "ENCRYPTED PRIVATE KEY", "pkcs8 writes a \"%s\"", nm.c_str());
        uint8_t* od = nullptr; int on = i2d_ASN1_OBJECT(OBJ_nid2obj(OBJ_txt2nid("hmacWithDstu34311")), &od); bool has = on > 0 && std::search(e.begin(), e.end(), od, od + on) != e.end(); OPENSSL_free(od); REQUIRE(has == (prf != 2), "the PRF is not the %s", prf == 0 ? "cipher's own" : "one asked for"); checked();
        c.good({"pkey", "-in", c.d.at("e.pem"), "-passin", "pass:" + pw, "-outform", "DER", "-out", c.d.at("k2.der")}); RefKey w = clone(k); w.table = canonical_table(k.table);
        REQUIRE(c.d.get("k2.der") == pkcs8(w), "the key comes back from PKCS#8 encryption changed"); checked();
        // and by this process
        { Bio b(BIO_new_mem_buf(e.data(), (int)e.size())); PKey q(d2i_PKCS8PrivateKey_bio(b, nullptr, nullptr, (void*)pw.c_str())); REQUIRE(q && out_pkcs8(q) == pkcs8(w), "another process cannot read the encrypted key: %s", err_text().c_str()); checked(); }
        Run r = c.run({"pkey", "-in", c.d.at("e.pem"), "-passin", "pass:" + no, "-outform", "DER", "-out", c.d.at("k3.der")}); REQUIRE(!r.ok(), "a wrong password is accepted"); checked(); label("pkcs8");
    }
    use_key(c, s, k);
}
void flow_cms(Cli& c, Src& s)
{
    RefKey k = gen_key(s, 0); Cert x = cert_for(k); c.d.put("k.pem", pem("PRIVATE KEY", pkcs8(k))); c.d.put("c.pem", pem("CERTIFICATE", der_of(x)));
    Bytes m = s.blob(s.len(800)); c.d.put("m", m); bool cms = s.below(3) != 0, attr = s.flip() && cms, whole = s.flip(); 
    if (!cms && !k.default_table()) { k.table.clear(); x = cert_for(k); c.d.put("k.pem", pem("PRIVATE KEY", pkcs8(k))); c.d.put("c.pem", pem("CERTIFICATE", der_of(x))); }
    const char* fm = s.flip() ? "DER" : "PEM"; std::vector<std::string> a = {cms ? "cms" : "smime", "-sign", "-in", c.d.at("m"), "-signer", c.d.at("c.pem"), "-inkey", c.d.at("k.pem"), "-outform", fm, "-binary", "-out", c.d.at("x")};
    if (s.flip()) { a.push_back("-md"); a.push_back("dstu34311"); } else label("default digest"); if (whole) a.push_back("-nodetach"); if (!attr) a.push_back("-noattr"); c.good(a);
    std::vector<std::string> v = {cms ? "cms" : "smime", "-verify", "-in", c.d.at("x"), "-inform", fm, "-noverify", "-binary", "-out", c.d.at("y")}; if (!whole) { v.push_back("-content"); v.push_back(c.d.at("m")); }
    c.good(v); REQUIRE(c.d.get("y") == m, "the verified content is another"); checked();
    if (!whole) { m.push_back(7); c.d.put("m", m); c.bad(v); label("detached"); }
    else { Bytes d = c.d.get("x"); if (!strcmp(fm, "DER")) { d[d.size() - 1 - s.below(8)] ^= 0x10; c.d.put("x", d); c.bad(v); } }
    label(cms ? "cms" : "smime");
}
void flow_cms_encrypt(Cli& c, Src& s)
{
    Bytes m = s.blob(1 + s.len(800)), key = s.noise(32); c.d.put("m", m);
    c.good({"cms", "-EncryptedData_encrypt", "-dstu28147-cfb", "-secretkey", plain_hex(key), "-in", c.d.at("m"), "-outform", "DER", "-binary", "-out", c.d.at("x")}); Bytes x = c.d.get("x");
    // the cipher text by the model: IV and table stand in the parameters
    std::vector<mut::T> t; REQUIRE(mut::parse(x, &t), "cms -encrypt writes no DER");
    c.good({"cms", "-EncryptedData_decrypt", "-secretkey", plain_hex(key), "-in", c.d.at("x"), "-inform", "DER", "-binary", "-out", c.d.at("y")}); REQUIRE(c.d.get("y") == m, "the decrypted content is another"); checked();
    const uint8_t* p = x.data(); Own<CMS_ContentInfo, CMS_ContentInfo_free> ci(d2i_CMS_ContentInfo(nullptr, &p, (long)x.size())); Bio out(BIO_new(BIO_s_mem())); REQUIRE(ci && CMS_EncryptedData_decrypt(ci, key.data(), key.size(), nullptr, out, CMS_BINARY) == 1, "another process cannot decrypt: %s", err_text().c_str());
    char* o; long n = BIO_get_mem_data(out, &o); REQUIRE(Bytes(o, o + n) == m, "another process decrypts something else"); checked();
    Bytes iv; for (size_t i = 0; i + 76 < x.size() && iv.empty(); ++i) if (x[i] == 0x04 && x[i + 1] == 8 && x[i + 10] == 0x04 && x[i + 11] == 64) iv.assign(x.begin() + i + 2, x.begin() + i + 10);
    REQUIRE(!iv.empty(), "no parameters in the encrypted data"); Bytes want = ref::cfb(ref::dflt(), key.data(), iv.data(), m, true);
    REQUIRE(std::search(x.begin(), x.end(), want.begin(), want.end()) != x.end(), "the encrypted data do not hold the standard's cipher text"); checked(); label("cms -EncryptedData_encrypt");
}
void flow_pkcs12(Cli& c, Src& s)
{
    RefKey k = gen_key(s, 0); Cert x = cert_for(k); std::string pw = gen_word(s); c.d.put("k.pem", pem("PRIVATE KEY", pkcs8(k))); c.d.put("c.pem", pem("CERTIFICATE", der_of(x))); RefKey w = clone(k); w.table = canonical_table(k.table);
    std::vector<std::string> a = {"pkcs12", "-export", "-inkey", c.d.at("k.pem"), "-in", c.d.at("c.pem"), "-passout", "pass:" + pw, "-out", c.d.at("x"), "-iter", std::to_string(1 + s.below(60)), "-maciter"};
    switch (s.below(4)) { case 0: a.push_back("-keypbe"); a.push_back("dstu28147-cfb"); label("dstu28147 key bag"); break; case 1: a.push_back("-macalg"); a.push_back("dstu34311"); label("dstu34311 MAC"); break; case 2: a.push_back("-certpbe"); a.push_back("NONE"); break; default: break; }
    c.good(a); Bytes d = c.d.get("x");
    c.good({"pkcs12", "-in", c.d.at("x"), "-passin", "pass:" + pw, "-nodes", "-nocerts", "-out", c.d.at("y")}); Bytes y = c.d.get("y"); std::string nm, ys = str(y); size_t at = ys.find("-----BEGIN"); REQUIRE(at != std::string::npos, "no key in the PKCS#12 file");
    Bytes p8 = unpem(Bytes(y.begin() + at, y.end()), &nm); REQUIRE(nm == "PRIVATE KEY" && p8 == pkcs8(w), "the key comes back changed from a PKCS#12 file"); checked();
    c.bad({"pkcs12", "-in", c.d.at("x"), "-passin", "pass:" + pw + "x", "-nodes", "-out", c.d.at("z")});
    // the container library reads what the utility writes
    ct::Store st; int r = KL.parsePKCS12(d.data(), d.size(), pw.data(), pw.size(), &st.p); REQUIRE(r == 1 && st.p && KL.KeyStoreKeyNum(st.p) == 1 && KL.KeyStoreCertNum(st.p) == 1, "the library does not read the utility's PKCS#12 file (%d): %s", r, err_text().c_str());
    REQUIRE(out_pkcs8(const_cast<EVP_PKEY*>(KL.KeyStoreGetKey(st.p, 0))) == pkcs8(w) && der_of(const_cast<X509*>(KL.KeyStoreGetCert(st.p, 0))) == der_of(x), "the library reads something else from the utility's PKCS#12 file"); checked(2); label("pkcs12");
}
void flow_misc(Cli& c, Src& s)
{
    if (s.flip())
    {
        size_t n = 1 + s.below(400); Run r = c.good({"rand", std::to_string(n)}); Run q = c.good({"rand", std::to_string(n)}); REQUIRE(r.out.size() == n && q.out.size() == n, "rand %zu gives %zu bytes", n, r.out.size()); checked();
        if (n >= 16) REQUIRE(r.out != q.out, "rand repeats itself"); label("rand");
    }
    else
    {
        bool cfg = c.config; c.config = true; Run r = c.good({"engine", "-c", "-t", "dstu"}); c.config = cfg; std::string o = str(r.out);
        REQUIRE(o.find("available") != std::string::npos && o.find("unavailable") == std::string::npos, "the engine is not available: %s", o.c_str());
        for (const char* x : {"RAND", "dstu34311", "dstu28147-cfb", "dstu4145le", "dstu4145be"}) REQUIRE(o.find(x) != std::string::npos, "openssl engine -c does not list %s: %s", x, o.c_str());
        for (const char* x : {"RSA", "DSA", "DH", "SHA", "AES"}) REQUIRE(o.find(x) == std::string::npos, "openssl engine -c lists %s: %s", x, o.c_str()); checked(); label("engine -c");
    }
}
}

SCENARIO_OPT("P29", utility, 4000, 60000, 0, "every case runs the utility at least once")
{
    if (!getenv("DSTU_SHIM")) throw Discard();
    Cli c(s); nontrivial();
    switch (s.below(10))
    {
        case 0: flow_digest(c, s); break;
        case 1: flow_enc(c, s); break;
        case 2: case 3: flow_genpkey(c, s); break;
        case 4: case 5: flow_key(c, s); break;
        case 6: flow_cms(c, s); break;
        case 7: flow_cms_encrypt(c, s); break;
        case 8: flow_pkcs12(c, s); break;
        default: flow_misc(c, s);
    }
    ERR_clear_error();
}
