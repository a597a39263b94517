#include "env.h"
#include <dlfcn.h>
#include <link.h>
#include <pthread.h>
#include <atomic>
#include <mutex>
#include <cstdlib>
#include <time.h>
#include <sys/time.h>
#include <unistd.h>
#include <malloc.h>
#include <errno.h>
#include <execinfo.h>
#include <openssl/pem.h>

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define HAVE_ASAN 1
extern "C" size_t __sanitizer_get_current_allocated_bytes();
#endif
#endif

thread_local Rng g_rng;
uint8_t g_fill = 0xA5;
ENGINE* g_engine = nullptr;
KeyLib KL;
SeedSource g_seed;
static void* g_keylib = nullptr;
static std::string g_libdir;
static std::atomic<int64_t> g_live{0};

int64_t live_allocs() { return g_live.load(); }
int64_t live_bytes()
{
#ifdef HAVE_ASAN
    return (int64_t)__sanitizer_get_current_allocated_bytes();
#else
    return 0;
#endif
}

thread_local MemFault g_memfault;
bool MemFault::strike()
{
    uint64_t c = ++count;
    if (!armed || fail_at == 0) return false;
    bool hit = persistent ? c >= fail_at : c == fail_at;
    if (hit) ++struck;
    return hit;
}
thread_local Released g_released;
// EVP_PKCS82PKEY of OpenSSL 3 puts the structure through its decoders, which do not wipe their copies
static bool decoders_own()
{
    void* v[24]; int n = backtrace(v, 24);
    for (int i = 0; i < n; ++i)
    {
        if (pc_in_repo_module(v[i])) return false;
        Dl_info d;
        if (dladdr(v[i], &d) && d.dli_sname && (!strncmp(d.dli_sname, "OSSL_DECODER_", 13) || !strncmp(d.dli_sname, "OSSL_ENCODER_", 13))) return true;
    }
    return false;
}
void Released::take(const void* p)
{
    size_t n = malloc_usable_size((void*)p);
    on = false;
    bool want = only.empty();
    for (auto& x : only) if (n >= x.size() && memmem(p, n, x.data(), x.size())) { want = true; if (decoders_own()) { ++own; on = true; return; } break; }
    if (want && bytes + n > (64u << 20)) ++missed;
    else if (want) { bytes += n; blocks.emplace_back((const uint8_t*)p, (const uint8_t*)p + n); }
    on = true;
}
static void* m_malloc(size_t n, const char*, int)
{
    if (n == 0) return nullptr;
    if (g_memfault.armed && g_memfault.strike()) return nullptr;
    void* p = malloc(n);
    if (p) { g_live.fetch_add(1, std::memory_order_relaxed); memset(p, g_fill, n); }
    return p;
}
static void m_free(void* p, const char*, int)
{
    if (!p) return;
    g_live.fetch_sub(1, std::memory_order_relaxed);
    if (g_released.on) g_released.take(p);
#ifdef HAVE_ASAN
    memset(p, 0xDD, malloc_usable_size(p));   // OpenSSL is not instrumented: make its use of released memory show
#endif
    free(p);
}
static void* m_realloc(void* p, size_t n, const char* f, int l)
{
    if (!p) return m_malloc(n, f, l);
    if (n == 0) { m_free(p, f, l); return nullptr; }
    if (g_memfault.armed && g_memfault.strike()) return nullptr;
    if (g_released.on) g_released.take(p);   // it may move, and would leave its contents behind
    return realloc(p, n);
}

bool Rng::bytes(uint8_t* p, size_t n)
{
    uint64_t c = calls++;
    if (fail_from >= 0 && (int64_t)c >= fail_from) { failed = true; return false; }
    if (drawn + n > limit) { exhausted = true; return false; }
    drawn += n;
    for (size_t i = 0; i < n; ++i)
    {
        if (spos < script.size()) p[i] = script[spos++];
        else { p[i] = uint8_t(mix64(seed * 0x9e3779b97f4a7c15ULL + ctr) >> 16); ++ctr; }
    }
    return true;
}
static int r_bytes(unsigned char* buf, int num) { return g_rng.bytes(buf, num) ? 1 : 0; }
static int r_seed(const void*, int) { return 1; }
static int r_add(const void*, int, double) { return 1; }
static int r_status() { return 1; }
static RAND_METHOD g_rand_meth = { r_seed, r_bytes, nullptr, r_add, r_bytes, r_status };

// ---- interposed seeding source
static std::mutex g_seed_mx;
static int s_bytes(unsigned char* buf, int num)
{
    std::lock_guard<std::mutex> lk(g_seed_mx);
    uint64_t c = g_seed.calls; g_seed.calls = c + 1;
    if (g_seed.fail_from >= 0 && (int64_t)c >= g_seed.fail_from) return 0;
    for (int i = 0; i < num; ++i)
    {
        if (g_seed.pos < g_seed.bytes.size()) buf[i] = g_seed.bytes[g_seed.pos++];
        else { buf[i] = uint8_t(mix64(g_seed.seed + 0x1234567 + g_seed.delivered) >> 8); }
        g_seed.delivered = g_seed.delivered + 1;
    }
    g_seed.given.emplace_back(buf, buf + num);
    return 1;
}
static int s_status() { return g_seed.status; }
static RAND_METHOD g_seed_meth = { r_seed, s_bytes, nullptr, r_add, s_bytes, s_status };
extern "C" __attribute__((visibility("default"))) RAND_METHOD* RAND_OpenSSL(void)
{
    static RAND_METHOD* (*real)(void) = (RAND_METHOD * (*)(void)) dlsym(RTLD_NEXT, "RAND_OpenSSL");
    if (g_seed.active) return &g_seed_meth;
    return real();
}
extern "C" __attribute__((visibility("default"))) time_t time(time_t* t) noexcept
{
    time_t v;
    if (g_seed.fake_time) { g_seed.time_calls = g_seed.time_calls + 1; v = (time_t)g_seed.time; }
    else { timespec ts; clock_gettime(CLOCK_REALTIME, &ts); v = ts.tv_sec; }
    if (t) memcpy(t, &v, sizeof v);
    return v;
}

template<class F> static void sym(F& f, const char* n)
{
    f = (F)dlsym(g_keylib, n);
    if (!f) { fprintf(stderr, "missing %s in libkeylib\n", n); _exit(3); }
}
void* keylib_sym(const char* n) { return dlsym(g_keylib, n); }

void env_init()
{
    if (!CRYPTO_set_mem_functions(m_malloc, m_realloc, m_free)) { fprintf(stderr, "allocator not installed\n"); _exit(3); }
    const char* d = getenv("DSTU_LIBDIR");
    g_libdir = d ? d : "/repo/_build";
    setenv("OPENSSL_CONF", "/dev/null", 1);
}

ENGINE* engine_load_dynamic(const char*)
{
    ENGINE* e = ENGINE_by_id("dynamic");
    if (!e) return nullptr;
    std::string so = g_libdir + "/engine/dstu.so";
    if (!ENGINE_ctrl_cmd_string(e, "SO_PATH", so.c_str(), 0) ||
        !ENGINE_ctrl_cmd_string(e, "ID", "dstu", 0) ||
        !ENGINE_ctrl_cmd_string(e, "LIST_ADD", "0", 0) ||
        !ENGINE_ctrl_cmd_string(e, "LOAD", nullptr, 0))
    {
        ENGINE_free(e);
        return nullptr;
    }
    return e;
}
bool engine_use(ENGINE* e)
{
    return ENGINE_init(e) && ENGINE_set_default(e, ENGINE_METHOD_ALL & ~ENGINE_METHOD_RAND);
}

static bool g_loaded = false;
void env_load(const Scenario& sc)
{
    if (g_loaded) return;
    g_loaded = true;
    RAND_set_rand_method(&g_rand_meth);
    std::string kl = g_libdir + "/keylib/libkeylib.so";
    g_keylib = dlopen(kl.c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!g_keylib) { fprintf(stderr, "cannot load %s: %s\n", kl.c_str(), dlerror()); _exit(3); }
#define S(x) sym(KL.x, #x)
    S(parseJKS); S(readJKS); S(readJKS_bio); S(parseKey6); S(readKey6); S(readKey6_bio); S(parsePKCS12); S(readPKCS12); S(readPKCS12_bio);
    S(KeyStoreFree); S(KeyStoreKeyNum); S(KeyStoreCertNum); S(KeyStoreGetKey); S(KeyStoreGetCert);
#undef S
    OPENSSL_init_crypto(OPENSSL_INIT_LOAD_CRYPTO_STRINGS | OPENSSL_INIT_ADD_ALL_CIPHERS | OPENSSL_INIT_ADD_ALL_DIGESTS | OPENSSL_INIT_NO_LOAD_CONFIG, nullptr);
    ENGINE_load_dynamic();
    if (!(sc.flags & NO_ENGINE))
    {
        g_engine = engine_load_dynamic();
        if (!g_engine || !engine_use(g_engine)) { fprintf(stderr, "cannot load the engine: %s\n", err_text().c_str()); _exit(3); }
        RAND_set_rand_method(&g_rand_meth);
    }
}

// What an earlier failure left behind (a queued error, errno) says nothing about the calls to come.
static void leftovers()
{
    ERR_clear_error();
    ERR_put_error(ERR_LIB_PEM, 0, PEM_R_NO_START_LINE, __FILE__, __LINE__);
    ERR_put_error(ERR_LIB_ASN1, 0, ERR_R_MALLOC_FAILURE, __FILE__, __LINE__);
    errno = EILSEQ;
}
void env_case_begin(const Scenario&)
{
    g_rng.reset(0x5eed);
    g_fill = 0xA5;
    leftovers();
    g_seed = SeedSource();
}
void env_case_end(const Scenario&)
{
    g_seed.active = false; g_seed.fake_time = false;
    ERR_clear_error();
}

void run_again(void (*body)(Src&), Src& s)
{
    struct End { ~End() { g_seed.active = false; g_seed.fake_time = false; ERR_clear_error(); } } end;
    int n = 2 + (int)s.below(4), done = 0;
    for (int i = 0; i < n; ++i)
    {
        g_rng.reset(0x5eed); g_fill = 0xA5; leftovers(); g_seed = SeedSource();
        try { body(s); ++done; }
        catch (const Discard&) {}
    }
    if (!done) throw Discard();
}
const EVP_MD* MD()
{
    const EVP_MD* m = ENGINE_get_digest(g_engine, NID_dstu34311);
    if (!m) FAIL("the engine does not provide its digest");
    return m;
}
const EVP_CIPHER* CIPHER()
{
    const EVP_CIPHER* c = ENGINE_get_cipher(g_engine, NID_dstu28147_cfb);
    if (!c) FAIL("the engine does not provide its cipher");
    return c;
}
std::string err_text()
{
    std::string r; char b[300]; unsigned long e;
    while ((e = ERR_get_error())) { ERR_error_string_n(e, b, sizeof b); r += b; r += "; "; }
    return r;
}
bool pc_in_repo_module(const void* pc)
{
    Dl_info i;
    if (!dladdr(pc, &i) || !i.dli_fname) return false;
    return strstr(i.dli_fname, "dstu.so") || strstr(i.dli_fname, "libkeylib.so");
}

struct Race { int n; struct { bool write; int size; void* trace[12]; } mop[4]; };
static Race g_races[16];
static std::atomic<int> g_nraces{0};
#ifdef WITH_TSAN
extern "C" int __tsan_get_report_data(void*, const char**, int*, int*, int*, int*, int*, int*, int*, void**, unsigned long);
extern "C" int __tsan_get_report_mop(void*, unsigned long, int*, void**, int*, int*, int*, void**, unsigned long);
extern "C" __attribute__((visibility("default"), no_sanitize("thread"))) void __tsan_on_report(void* rep)
{
    const char* what = nullptr; int count = 0, stacks = 0, mops = 0, locs = 0, mutexes = 0, threads = 0, tids = 0; void* sleep[1];
    __tsan_get_report_data(rep, &what, &count, &stacks, &mops, &locs, &mutexes, &threads, &tids, sleep, 0);
    int at = g_nraces.load(std::memory_order_relaxed);
    if (at >= 16 || mops == 0) return;
    Race& r = g_races[at];
    r.n = mops < 4 ? mops : 4;
    for (int i = 0; i < r.n; ++i)
    {
        int tid, size, write, atomic; void* addr;
        for (auto& t : r.mop[i].trace) t = nullptr;
        __tsan_get_report_mop(rep, i, &tid, &addr, &size, &write, &atomic, r.mop[i].trace, 12);
        r.mop[i].write = write; r.mop[i].size = size;
    }
    g_nraces.store(at + 1, std::memory_order_relaxed);
}
#endif
void races_reset() { g_nraces = 0; }
std::string races()
{
    std::string out;
    Dl_info self; dladdr((void*)&races_reset, &self);
    for (int i = 0; i < g_nraces; ++i)
    {
        bool ours = false; std::string d;
        for (int j = 0; j < g_races[i].n; ++j)
        {
            bool first = true;
            d += g_races[i].mop[j].write ? " write" : " read"; d += " of " + std::to_string(g_races[i].mop[j].size) + " bytes at";
            for (void* pc : g_races[i].mop[j].trace)
            {
                Dl_info in;
                if (!pc || !dladdr(pc, &in)) continue;
                if (in.dli_fbase == self.dli_fbase && first) continue;     // interceptors and harness frames
                if (first && pc_in_repo_module(pc)) ours = true;
                first = false;
                char off[40]; snprintf(off, sizeof off, "%s+0x%zx", strrchr(in.dli_fname, '/') ? strrchr(in.dli_fname, '/') + 1 : in.dli_fname, (size_t)((char*)pc - (char*)in.dli_fbase));
                d += std::string(" ") + (in.dli_sname ? in.dli_sname : off);
            }
            d += ";";
        }
        if (ours && out.size() < 500) out += "data race:" + d + " ";
    }
    return out;
}
