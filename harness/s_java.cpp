// P14, P17: stores written by Java itself (its JKS and PKCS12 providers) instead of by this harness's own writers.
#include "cont.h"
#include <fcntl.h>
#include <spawn.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
using namespace dk;

namespace
{
std::string hx(const Bytes& b) { if (b.empty()) return "-"; std::string r; char t[3]; for (auto x : b) { snprintf(t, sizeof t, "%02x", x); r += t; } return r; }
struct Plan { std::string line, desc; ct::Expect want; ct::Password store, key; };
Bytes alias_text(Src& s, int i)
{
    std::string n = "e" + std::to_string(i); Bytes a(n.begin(), n.end());
    static const char* extra[] = {"", " ", "\xd0\xba\xd0\xbb\xd1\x8e\xd1\x87", "\xe2\x82\xac", "\xf0\x9f\x94\x91", "z", "zzzzzzzzzzzzzzzzzzzz", "\x01"};
    for (unsigned k = (unsigned)s.below(4); k; --k) { const char* e = extra[s.below(8)]; a.insert(a.end(), e, e + strlen(e)); }
    return a;
}
Plan plan(Src& s, bool p12)
{
    Plan p; p.store = ct::gen_password(s); if (p12) for (auto& x : p.store.utf8) x = uint8_t(0x20 + x % 95); // (Java's PKCS#12 takes ASCII only)
    p.key = p12 || s.flip() ? p.store : ct::gen_password(s);
    static const char* macs[] = {"HmacPBESHA1", "HmacPBESHA256", "HmacPBESHA384", "HmacPBESHA512"};
    static const char* algs[] = {"PBEWithHmacSHA1AndAES_128", "PBEWithHmacSHA256AndAES_256", "PBEWithHmacSHA512AndAES_256", "PBEWithSHA1AndDESede"};
    p.line = std::string(p12 ? "PKCS12 " : "JKS ") + hx(p.store.utf8) + " " + hx(p.key.utf8) + " " + macs[s.below(4)] + " " + (s.below(3) ? algs[s.below(4)] : "NONE") + " " + algs[s.below(4)];
    int n = p12 ? 1 + (int)s.below(5) : (int)s.below(6), keys = 0; // (a PKCS#12 file of nothing holds nothing to be read)
    for (int i = 0; i < n; ++i)
    {
        Bytes al = alias_text(s, i);
        if (s.below(3))
        {
            ct::P8Out k = ct::gen_p8(s, !p12 && s.flip()); for (auto& x : k.keys) p.want.keys.push_back(x); ++keys;
            int nc = p12 ? 1 : 1 + (int)s.below(3); p.line += " K " + hx(al) + " " + hx(k.der) + " " + std::to_string(nc);
            for (int j = 0; j < nc; ++j) { Bytes c = ct::gen_cert(s, 300); p.want.certs.push_back(c); p.line += " " + hx(c); }
        }
        else { Bytes c = ct::gen_cert(s, 300); p.want.certs.push_back(c); p.line += " T " + hx(al) + " " + hx(c); }
    }
    char d[100]; snprintf(d, sizeof d, "%s by Java: %d key entries of %d", p12 ? "PKCS12" : "JKS", keys, n); p.desc = d;
    return p;
}
// the order of a Java store's entries is its own affair
void same_any_order(KeyStore* ks, const ct::Expect& e, const char* where)
{
    REQUIRE(ks, "%s: success without a store", where);
    size_t nk = KL.KeyStoreKeyNum(ks), nc = KL.KeyStoreCertNum(ks);
    REQUIRE(nk == e.keys.size() && nc == e.certs.size(), "%s: %zu keys and %zu certificates, expected %zu and %zu", where, nk, nc, e.keys.size(), e.certs.size());
    std::vector<bool> used(nk), usedc(nc); std::string last;
    for (auto& k : e.keys)
    {
        bool found = false;
        for (size_t i = 0; i < nk && !found; ++i) if (!used[i]) { try { ct::same_key(KL.KeyStoreGetKey(ks, i), k, where); used[i] = found = true; } catch (PropFail& f) { last = f.msg; } }
        REQUIRE(found, "a key is missing: %s", last.c_str());
    }
    for (auto& c : e.certs)
    {
        bool found = false;
        for (size_t i = 0; i < nc && !found; ++i) if (!usedc[i]) { try { ct::same_cert(KL.KeyStoreGetCert(ks, i), c, where); usedc[i] = found = true; } catch (PropFail& f) { last = f.msg; } }
        REQUIRE(found, "a certificate is missing: %s", last.c_str());
    }
}
void by_java(Src& s, bool p12)
{
    const char* dir = getenv("DSTU_JAVA");
    if (!dir || !*dir) { label("no Java here"); note("no Java here"); return; }
    std::vector<Plan> ps; std::string in; for (int i = 0, n = 4 + (int)s.below(5); i < n; ++i) { ps.push_back(plan(s, p12)); in += ps.back().line + "\n"; }
    char tmp[] = "/tmp/dstu-java-XXXXXX"; if (!mkdtemp(tmp)) throw Discard();
    struct Rm { std::string d; ~Rm() { unlink((d + "/in").c_str()); unlink((d + "/out").c_str()); rmdir(d.c_str()); } } rm{tmp};
    std::string fi = rm.d + "/in", fo = rm.d + "/out"; FILE* f = fopen(fi.c_str(), "w"); if (!f) throw Discard(); fwrite(in.data(), 1, in.size(), f); fclose(f);
    std::vector<std::string> a = {"java", "-Xshare:auto", "-XX:TieredStopAtLevel=1", "-XX:+UseSerialGC", "-Xmx256m", "-cp", dir, "Stores"}, ev = {"PATH=/usr/local/bin:/usr/bin:/bin", "LC_ALL=C"};
    std::vector<char*> av, evp; for (auto& x : a) av.push_back(&x[0]); av.push_back(nullptr); for (auto& x : ev) evp.push_back(&x[0]); evp.push_back(nullptr);
    posix_spawn_file_actions_t fa; posix_spawn_file_actions_init(&fa);
    posix_spawn_file_actions_addopen(&fa, 0, fi.c_str(), O_RDONLY, 0); posix_spawn_file_actions_addopen(&fa, 1, fo.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); posix_spawn_file_actions_addopen(&fa, 2, "/dev/null", O_WRONLY, 0);
    pid_t pid; int rc = posix_spawnp(&pid, "java", &fa, nullptr, av.data(), evp.data()); posix_spawn_file_actions_destroy(&fa);
    if (rc) { label("no Java here"); return; }
    int st = 0; while (waitpid(pid, &st, 0) < 0) if (errno != EINTR) throw Discard();
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { label("Java failed"); throw Discard(); }
    std::string out; { FILE* g = fopen(fo.c_str(), "r"); if (!g) throw Discard(); char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, g)) > 0) out.append(b, n); fclose(g); }
    size_t at = 0;
    for (auto& p : ps)
    {
        size_t e = out.find('\n', at); if (e == std::string::npos) { label("Java failed"); throw Discard(); }
        std::string l = out.substr(at, e - at); at = e + 1;
        if (l.compare(0, 3, "OK ")) { label("refused by Java"); note("%s: %s", p.desc.c_str(), l.c_str()); continue; }
        Bytes b = unhex(l.substr(3)); ct::Container c; c.kind = p12 ? 2 : 0; c.pass = p.store.utf8; c.keypass = p.key.utf8; c.bytes = b; c.desc = p.desc;
        ct::Store ks; int r = ct::parse(c, &ks.p);
        REQUIRE(r == 1, "%s: a store written by Java is refused: %s %s", p.desc.c_str(), err_text().c_str(), hex(b, 3000).c_str());
        same_any_order(ks.p, p.want, p.desc.c_str()); checked();
        // damaged, it must not be taken
        Bytes d = b; if (!p12) d[s.below(d.size())] ^= uint8_t(1 + s.below(255)); else { Bytes w = c.pass; w.push_back('q'); c.pass = w; }
        c.bytes = d; ct::Store k2; r = ct::parse(c, &k2.p); REQUIRE(r != 1 && !k2.p, "%s: %s is accepted", p.desc.c_str(), p12 ? "another password" : "a changed store"); checked();
        ERR_clear_error();
        if (!p.want.keys.empty()) nontrivial();
        note("%s (%zu bytes)", p.desc.c_str(), b.size()); label("store by Java");
    }
}
}
SCENARIO("P14", jks_by_java, 96, 3000, 0, "Java wrote a store with a key and it was read")
{
    by_java(s, false);
}
SCENARIO("P17", p12_by_java, 96, 3000, 0, "Java wrote a store with a key and it was read")
{
    by_java(s, true);
}
