// P01, P02: digest
#include "env.h"
#include "ref.h"
#include "gen.h"
#include <openssl/hmac.h>

static void require_digest(EVP_MD_CTX* c, const Bytes& want, const char* what)
{
    uint8_t out[64]; unsigned n = 0;
    memset(out, 0x77, sizeof out);
    REQUIRE(EVP_DigestFinal_ex(c, out, &n) == 1, "%s: final failed: %s", what, err_text().c_str());
    REQUIRE(n == 32, "%s: digest size %u", what, n);
    REQUIRE(!memcmp(out, want.data(), 32), "%s: digest %s, expected %s", what, hex(out, 32).c_str(), hex(want).c_str());
    for (int i = 32; i < 64; ++i) REQUIRE(out[i] == 0x77, "%s: wrote past the 32-byte digest", what);
    checked();
}

SCENARIO("P01", digest_conformance, 300000, 6000000, FUZZABLE, "message cut into at least two updates, or longer than one block, or with a non-default table")
{
    size_t n = s.len(s.chance(24) ? 5000 : 300);
    Bytes msg = s.blob(n);
    auto parts = gen_cuts(s, n);
    bool custom = s.flip();
    Bytes table = custom ? gen_table(s) : Bytes(ref::DEFAULT_PACKED, ref::DEFAULT_PACKED + 64);
    MdCtx c(EVP_MD_CTX_new());
    REQUIRE(EVP_DigestInit_ex(c, MD(), g_engine) == 1, "init failed: %s", err_text().c_str());
    // refused settings must not change the context
    bool bad = s.chance(60);
    int badlen = 0;
    if (custom) REQUIRE(EVP_MD_CTX_ctrl(c, CTRL_SBOX_MD, 64, table.data()) == 1, "setting a 64-byte table refused");
    if (bad)
    {
        Bytes junk = s.noise(128);
        static const int lens[] = {0, 1, 63, 65, 128, 32, -1, -64, 63};
        badlen = lens[s.below(9)];
        bool null = s.chance(50);
        REQUIRE(EVP_MD_CTX_ctrl(c, CTRL_SBOX_MD, null ? 64 : badlen, null ? nullptr : junk.data()) <= 0, "a table of %d bytes%s was accepted", badlen, null ? " (null)" : "");
        checked();
    }
    size_t at = 0;
    for (size_t k : parts)
    {
        // an exact-size heap copy so that any overread is seen
        uint8_t* p = (uint8_t*)malloc(k ? k : 1); if (k) memcpy(p, msg.data() + at, k);
        int r = EVP_DigestUpdate(c, p, k);
        free(p);
        REQUIRE(r == 1, "update of %zu bytes failed", k);
        at += k;
    }
    note("len=%zu parts=%zu table=%s bad=%d msg=%s", n, parts.size(), custom ? hex(table, 8).c_str() : "default", badlen, hex(msg, 24).c_str());
    if (parts.size() > 1 || n > 32 || custom) nontrivial();
    label(n == 0 ? "len:0" : n < 32 ? "len:<32" : n == 32 ? "len:32" : n % 32 == 0 ? "len:k*32" : n < 1000 ? "len:33-999" : "len:>=1000");
    label(custom ? "table:custom" : "table:default");
    if (parts.size() > 1) label("multi-update");
    require_digest(c, ref::hash(ref::unpack(table.data()), msg), "digest");
}

// single updates far above any internal buffer, aligned and not
SCENARIO_OPT("P01", digest_long_updates, 250, 6000, 0, "an update of more than 64 KiB")
{
    static const size_t top[] = {70000, 140000, 300000, 1100000, 2500000};
    size_t n = s.below(top[s.below(5)]), off = s.below(8);
    Bytes mem = s.noise(n + off); bool custom = s.flip();
    Bytes table = custom ? gen_table(s) : Bytes(ref::DEFAULT_PACKED, ref::DEFAULT_PACKED + 64);
    MdCtx c(EVP_MD_CTX_new());
    REQUIRE(EVP_DigestInit_ex(c, MD(), g_engine) == 1, "init failed: %s", err_text().c_str());
    if (custom) REQUIRE(EVP_MD_CTX_ctrl(c, CTRL_SBOX_MD, 64, table.data()) == 1, "setting a 64-byte table refused");
    size_t at = 0, big = 0; int parts = 0;
    while (at < n || !parts)
    {
        size_t k = s.flip() ? s.below(40) : n - at; k = std::min(k, n - at);
        REQUIRE(EVP_DigestUpdate(c, mem.data() + off + at, k) == 1, "update of %zu bytes failed", k);
        at += k; big = std::max(big, k); ++parts;
    }
    note("len=%zu parts=%d largest=%zu offset=%zu", n, parts, big, off);
    if (big > 65536) nontrivial();
    if (big > 1048576) label("over 1 MiB at once");
    require_digest(c, ref::hash(ref::unpack(table.data()), Bytes(mem.begin() + off, mem.end())), "digest of long updates");
}

// very long messages: the bit length crosses 2^16 .. 2^24 (quick) and 2^32 (thorough, digest_huge)
SCENARIO("P01", digest_long, 400, 6000, 0, "message longer than 64 KiB")
{
    size_t n = (size_t(1) << (16 + s.below(5))) + s.below(70);
    Bytes blk = s.noise(4096);
    MdCtx c(EVP_MD_CTX_new());
    REQUIRE(EVP_DigestInit_ex(c, MD(), g_engine) == 1, "init failed");
    ref::HashState h; ref::hinit(h, ref::dflt());
    size_t at = 0;
    while (at < n)
    {
        size_t k = std::min<size_t>(1 + s.below(4096), n - at);
        REQUIRE(EVP_DigestUpdate(c, blk.data(), k) == 1, "update failed");
        ref::hupdate(h, blk.data(), k);
        at += k;
    }
    note("len=%zu", n); nontrivial();
    require_digest(c, ref::hfinal(h), "long message");
}

// Messages whose length in bits or bytes passes 2^32: the library hashes a fixed prefix once per process, the state of
// the reference at that point was computed beforehand, and every case appends its own tail after copying the context.
struct Prefix { uint64_t n; const char *H, *S; uint64_t blocks; };
static const Prefix PREFIX[] = {
    {536869888ull, "cd48709413157fddd654696dd18becef069dc3afe9c8e44559f035b64cb26692", "5d9f3630565cb8dd0845ee1193f6a02f357317281c19f5ade818952976444b8c", 16777184ull},
    {2147482624ull, "e874889ac939bf211cccdb0e4735acbd64305e01bb553ce0b4d5618290a87311", "5d5fe56d1b53d458ec46dd78e753cd0c58f22a9cab41ea1861921e421188985c", 67108832ull},
    {4294966272ull, "9f01c12d279c0d415963a4507b9f0681bae69c633ae63edf4baa68f269964274", "5d5fce6a229cf9fc70497157ad25b33331f1448c15cddbfc56342bb88a37aac7", 134217696ull},
};
static void huge(Src& s, int which)
{
    static EVP_MD_CTX* pre[3]; static uint64_t at = 0;
    if (!pre[which])
    {
        Bytes pat(1 << 16); for (size_t i = 0; i < pat.size(); ++i) pat[i] = uint8_t(mix64(i) >> 16);
        EVP_MD_CTX* c = EVP_MD_CTX_new();
        at = 0;
        if (which && pre[which - 1]) { REQUIRE(EVP_MD_CTX_copy_ex(c, pre[which - 1]) == 1, "copy failed"); at = PREFIX[which - 1].n; }
        else REQUIRE(EVP_DigestInit_ex(c, MD(), g_engine) == 1, "init failed");
        while (at < PREFIX[which].n)
        {
            size_t o = at % pat.size(), k = (size_t)std::min<uint64_t>(pat.size() - o, PREFIX[which].n - at);
            REQUIRE(EVP_DigestUpdate(c, pat.data() + o, k) == 1, "update failed after %llu bytes", (unsigned long long)at);
            at += k;
        }
        pre[which] = c;
    }
    Bytes tail = s.blob(s.len(3000));
    auto parts = gen_cuts(s, tail.size());
    MdCtx c(EVP_MD_CTX_new());
    REQUIRE(EVP_MD_CTX_copy_ex(c, pre[which]) == 1, "copy failed");
    size_t p = 0;
    for (size_t k : parts) { REQUIRE(EVP_DigestUpdate(c, tail.data() + p, k) == 1, "update failed"); p += k; }
    ref::HashState h; ref::hinit(h, ref::dflt());
    Bytes H = unhex(PREFIX[which].H), S = unhex(PREFIX[which].S);
    memcpy(h.H, H.data(), 32); memcpy(h.S, S.data(), 32); h.blocks = PREFIX[which].blocks;
    ref::hupdate(h, tail.data(), tail.size());
    uint64_t total = PREFIX[which].n + tail.size();
    note("len=%llu", (unsigned long long)total); nontrivial();
    label(total * 8 >= (1ull << 32) ? "bits>=2^32" : "bits<2^32");
    if (which == 2) label(total >= (1ull << 32) ? "bytes>=2^32" : "bytes<2^32");
    require_digest(c, ref::hfinal(h), "huge message");
}
SCENARIO_OPT("P01", digest_huge, 4000, 40000, SLOW, "total length around 2^29 bytes (2^32 bits)") { huge(s, 0); }
SCENARIO_OPT("P01", digest_huger, 0, 30000, SLOW, "total length around 2^31 or 2^32 bytes") { huge(s, 1 + (int)s.below(2)); }

// ---- P02
struct MCtx { MdCtx c; bool live = false; Bytes msg; Bytes table; };
SCENARIO("P02", digest_histories, 500000, 4000000, FUZZABLE, "at least one copy or re-initialisation or table change among three or more operations, and at least two finals")
{
    const int N = 5;
    MCtx m[N];
    int ops = 3 + (int)s.below(40), copies = 0, finals = 0, tables = 0, reinits = 0; bool again = false;
    for (auto& x : m) x.c.reset(EVP_MD_CTX_new());
    std::string trace;
    const Bytes dflt(ref::DEFAULT_PACKED, ref::DEFAULT_PACKED + 64);
    for (int i = 0; i < ops; ++i)
    {
        int a = (int)s.below(N), b = (int)s.below(N);
        MCtx& x = m[a];
        char t[64]; t[0] = 0;
        switch (s.below(10))
        {
            case 0: // (re-)init with explicit algorithm
                if (x.live) ++reinits;
                REQUIRE(EVP_DigestInit_ex(x.c, MD(), g_engine) == 1, "init failed");
                x.live = true; x.msg.clear(); x.table = dflt;
                snprintf(t, sizeof t, "init%d ", a);
                break;
            case 1: // re-init keeping the algorithm
                if (!EVP_MD_CTX_get0_md(x.c)) continue;
                REQUIRE(EVP_DigestInit_ex(x.c, nullptr, nullptr) == 1, "re-init failed");
                x.live = true; x.msg.clear(); x.table = dflt; ++reinits;
                snprintf(t, sizeof t, "reinit%d ", a);
                break;
            case 2: case 3: case 4:
            {
                if (!x.live) continue;
                Bytes d = s.blob(s.len(150));
                REQUIRE(EVP_DigestUpdate(x.c, d.data(), d.size()) == 1, "update failed");
                x.msg.insert(x.msg.end(), d.begin(), d.end());
                snprintf(t, sizeof t, "upd%d(%zu) ", a, d.size());
                break;
            }
            case 5: // a new table before any data (later the mixture would be outside the standard)
            {
                if (!x.live) continue;
                if (!x.msg.empty())
                {
                    // the table already in force, or another one and then it again: the message goes on
                    Bytes cur = x.table, tb = gen_table(s); bool detour = s.flip();
                    if (detour) REQUIRE(EVP_MD_CTX_ctrl(x.c, CTRL_SBOX_MD, 64, tb.data()) == 1, "table refused");
                    REQUIRE(EVP_MD_CTX_ctrl(x.c, CTRL_SBOX_MD, 64, cur.data()) == 1, "table refused");
                    snprintf(t, sizeof t, "%s%d ", detour ? "table-and-back" : "same-table", a); again = true;
                    break;
                }
                Bytes tb = gen_table(s);
                REQUIRE(EVP_MD_CTX_ctrl(x.c, CTRL_SBOX_MD, 64, tb.data()) == 1, "table refused");
                x.table = tb; ++tables;
                snprintf(t, sizeof t, "table%d ", a);
                break;
            }
            case 6: case 7: // copy a -> b
                if (!x.live || a == b) continue;
                REQUIRE(EVP_MD_CTX_copy_ex(m[b].c, x.c) == 1, "copy failed");
                m[b].live = true; m[b].msg = x.msg; m[b].table = x.table; ++copies;
                snprintf(t, sizeof t, "copy%d>%d ", a, b);
                break;
            case 8:
                if (!x.live) continue;
                require_digest(x.c, ref::hash(ref::unpack(x.table.data()), x.msg), "history");
                x.live = false; ++finals;
                snprintf(t, sizeof t, "final%d ", a);
                break;
            case 9: // free / reset and replace
                if (s.flip()) { EVP_MD_CTX_reset(x.c); snprintf(t, sizeof t, "reset%d ", a); }
                else { x.c.reset(EVP_MD_CTX_new()); snprintf(t, sizeof t, "free%d ", a); }
                x.live = false;
                break;
        }
        trace += t;
    }
    for (auto& x : m) if (x.live) { require_digest(x.c, ref::hash(ref::unpack(x.table.data()), x.msg), "history (end)"); ++finals; }
    note("%s", trace.c_str());
    if (copies) label("has copy");
    if (tables) label("has table");
    if (again) label("table set again within a message");
    if (reinits) label("has reinit");
    if (copies && tables) label("copy+table");
    if (finals >= 2 && copies + tables + reinits) nontrivial();
}

SCENARIO("P02", hmac_pbkdf2, 150000, 1000000, FUZZABLE, "key or message longer than one block, or several derived blocks, or a reused HMAC context")
{
    ref::Sbox sb = ref::dflt();
    if (s.flip())
    {
        // HMAC, one-shot or via a context that is copied and restarted
        Bytes key = s.blob(s.len(100)), msg = s.blob(s.len(200));
        if (s.chance(2)) { key = s.noise(1 + s.below(40000)); if (s.flip()) msg = s.noise(s.below(100000)); label("long"); }
        Bytes want = ref::hmac(sb, key, msg);
        uint8_t out[64]; unsigned n = 0;
        if (s.flip())
        {
            REQUIRE(HMAC(MD(), key.empty() ? (const void*)"" : key.data(), (int)key.size(), msg.empty() ? (const uint8_t*)"" : msg.data(), msg.size(), out, &n), "HMAC failed: %s", err_text().c_str());
            REQUIRE(n == 32 && !memcmp(out, want.data(), 32), "HMAC %s expected %s", hex(out, 32).c_str(), hex(want).c_str());
            note("hmac key=%zu msg=%zu", key.size(), msg.size());
            label("hmac one-shot");
        }
        else
        {
            HMAC_CTX* h = HMAC_CTX_new(); HMAC_CTX* h2 = HMAC_CTX_new();
            struct G { HMAC_CTX *a, *b; ~G() { HMAC_CTX_free(a); HMAC_CTX_free(b); } } g{h, h2};
            if (key.empty()) key.push_back(0), want = ref::hmac(sb, key, msg);
            REQUIRE(HMAC_Init_ex(h, key.data(), (int)key.size(), MD(), g_engine), "HMAC init failed: %s", err_text().c_str());
            size_t cut = s.below(msg.size() + 1);
            REQUIRE(HMAC_Update(h, msg.data(), cut), "HMAC update failed");
            REQUIRE(HMAC_CTX_copy(h2, h), "HMAC copy failed");
            Bytes other = s.blob(s.len(50));
            REQUIRE(HMAC_Update(h, msg.data() + cut, msg.size() - cut) && HMAC_Update(h2, other.data(), other.size()), "HMAC update failed");
            REQUIRE(HMAC_Final(h, out, &n) && n == 32 && !memcmp(out, want.data(), 32), "HMAC (context) differs");
            Bytes m2(msg.begin(), msg.begin() + cut); m2.insert(m2.end(), other.begin(), other.end());
            Bytes w2 = ref::hmac(sb, key, m2);
            REQUIRE(HMAC_Final(h2, out, &n) && n == 32 && !memcmp(out, w2.data(), 32), "HMAC of a copied context differs");
            // restart with the same key
            REQUIRE(HMAC_Init_ex(h, nullptr, 0, nullptr, nullptr) && HMAC_Update(h, msg.data(), msg.size()) && HMAC_Final(h, out, &n) && !memcmp(out, want.data(), 32), "restarted HMAC differs");
            note("hmac ctx key=%zu msg=%zu+%zu", key.size(), msg.size(), other.size());
            label("hmac context");
        }
        checked();
        if (key.size() > 32 || msg.size() > 32) nontrivial();
    }
    else
    {
        Bytes pass = s.blob(s.len(70)), salt = s.blob(1 + s.len(40));
        unsigned it = 1 + (unsigned)s.below(12); size_t len = 1 + s.below(100);
        if (s.chance(2)) { switch (s.below(3)) { case 0: pass = s.noise(1 + s.below(20000)); break; case 1: salt = s.noise(1 + s.below(20000)); it = 1; break; default: it = 1, len = 1 + s.below(9000); } label("long"); }
        Bytes out(len);
        static char none = 0;
        REQUIRE(PKCS5_PBKDF2_HMAC(pass.empty() ? &none : (char*)pass.data(), (int)pass.size(), salt.data(), (int)salt.size(), (int)it, MD(), (int)len, out.data()) == 1, "PBKDF2 failed: %s", err_text().c_str());
        Bytes want = ref::pbkdf2(sb, pass, salt, it, len);
        REQUIRE(out == want, "PBKDF2 pass=%s salt=%s it=%u: %s expected %s", hex(pass).c_str(), hex(salt).c_str(), it, hex(out).c_str(), hex(want).c_str());
        note("pbkdf2 pass=%zu salt=%zu it=%u len=%zu", pass.size(), salt.size(), it, len);
        label("pbkdf2"); checked();
        if (it > 1 || len > 32) nontrivial();
    }
}

// the same cases in sequence
SCENARIO_AGAIN("P01", digest_conformance, 30000, 600000)
