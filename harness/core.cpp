#include "src.h"
#include "env.h"
#include "ref.h"
#include "dk.h"
#include <cstdarg>
#include <algorithm>
#include <map>
#include <set>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <errno.h>
#include <dirent.h>
#include <openssl/err.h>

CaseInfo g_case;

void failf(const char* file, int line, const char* fmt, ...)
{
    char b[3000];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    const char* f = strrchr(file, '/');
    throw PropFail{std::string(b) + " [" + (f ? f + 1 : file) + ":" + std::to_string(line) + "]"};
}
void note(const char* fmt, ...)
{
    if (g_case.desc.size() > 1500) return;
    char b[1500];
    va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
    if (!g_case.desc.empty()) g_case.desc += ' ';
    g_case.desc += b;
}
std::string hex(const uint8_t* p, size_t n, size_t maxn)
{
    static const char* d = "0123456789abcdef";
    std::string r;
    for (size_t i = 0; i < n && i < maxn; ++i) { r += d[p[i] >> 4]; r += d[p[i] & 15]; }
    if (n > maxn) r += "...(" + std::to_string(n) + ")";
    return r;
}
Bytes unhex(const std::string& s)
{
    Bytes r; int hi = -1;
    for (char c : s)
    {
        int v;
        if (c >= '0' && c <= '9') v = c - '0';
        else if (c >= 'a' && c <= 'f') v = c - 'a' + 10;
        else if (c >= 'A' && c <= 'F') v = c - 'A' + 10;
        else continue;
        if (hi < 0) hi = v; else { r.push_back(uint8_t(hi << 4 | v)); hi = -1; }
    }
    return r;
}
uint64_t mix64(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ULL;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ULL;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebULL;
    return x ^ (x >> 31);
}
uint64_t hash_bytes(const void* p, size_t n, uint64_t h)
{
    const uint8_t* b = (const uint8_t*)p;
    for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 0x100000001b3ULL;
    return mix64(h);
}

uint8_t Src::byte()
{
    uint8_t b;
    if (random) { st += 0x9e3779b97f4a7c15ULL; b = (uint8_t)(mix64(st) >> 24); }
    else b = pos < size ? data[pos] : 0;
    ++pos;
    if (rec && *rec->len < rec->cap) { rec->buf[*rec->len] = b; *rec->len = *rec->len + 1; }
    if (tee) tee->push_back(b);
    g_case.key = (g_case.key ^ b) * 0x100000001b3ULL;
    return b;
}
static void expand(uint64_t seed, uint8_t* p, size_t n)
{
    uint64_t x = 0;
    for (size_t i = 0; i < n; ++i)
    {
        if (i % 8 == 0) x = mix64(seed * 0x9e3779b97f4a7c15ULL + i);
        p[i] = uint8_t(x >> (8 * (i % 8)));
    }
}
Bytes Src::noise(size_t n) { Bytes b(n); uint64_t sd = bits(4); expand(sd + 1, b.data(), n); return b; }
Bytes Src::blob(size_t n)
{
    Bytes b(n);
    if (n == 0) return b;
    switch (below(8))
    {
        case 0: return b;                                              // zeros
        case 1: { uint8_t v = byte(); for (auto& x : b) x = v; return b; }
        case 2: for (auto& x : b) x = 0xff; return b;
        case 3: { uint8_t v = byte(); for (size_t i = 0; i < n; ++i) b[i] = uint8_t(v + i); return b; }
        case 4: { b = noise(n); size_t k = below(n + 1); if (flip()) std::fill(b.begin(), b.begin() + k, 0); else std::fill(b.end() - k, b.end(), 0); return b; }
        case 5: { b = noise(n); size_t k = below(n + 1); if (flip()) std::fill(b.begin(), b.begin() + k, 0xff); else std::fill(b.end() - k, b.end(), 0xff); return b; }
        default: return noise(n);
    }
}
size_t Src::len(size_t max)
{
    if (max == 0) { byte(); return 0; }
    size_t r;
    switch (below(8))
    {
        case 0: r = below(std::min<size_t>(max, 9) + 1); break;
        case 1: r = below(std::min<size_t>(max, 40) + 1); break;
        case 2: { size_t k = 8 * below(max / 8 + 1); int d = int(below(3)) - 1; r = d < 0 && k == 0 ? 0 : k + d; break; }
        case 3: { size_t k = 32 * below(max / 32 + 1); int d = int(below(3)) - 1; r = d < 0 && k == 0 ? 0 : k + d; break; }
        case 4: { size_t k = size_t(1) << below(20); int d = int(below(3)) - 1; r = k + d; break; }
        case 5: r = max - below(std::min<size_t>(max, 3) + 1); break;
        default: r = below(max + 1);
    }
    return std::min(r, max);
}

std::vector<Scenario>& scenarios() { static std::vector<Scenario> v; return v; }

// ------------------------------------------------------------------ shared memory between runner and workers
static const int NLAB = 200;
struct Lab { char name[56]; uint64_t n; };
static const size_t RECCAP = 1 << 20;
struct Slot
{
    volatile uint64_t idx;       // current case
    volatile uint64_t done;      // finished cases
    volatile uint32_t state;     // 0 running, 1 property failure
    volatile uint32_t reclen;
    volatile pid_t curpid;       // process executing the case
    uint64_t nontriv, checks, discards;
    char msg[4096];
    int nlab;
    Lab lab[NLAB];
    int nsamp;
    char samp[4][1600];
    uint8_t rec[RECCAP];
};
static Slot* g_slot = nullptr;      // of this worker
static uint64_t* g_keys = nullptr;  // per-case key if non-trivial (0 = not)

void label(const char* name)
{
    if (!g_slot) return;
    for (int i = 0; i < g_slot->nlab; ++i)
        if (!strcmp(g_slot->lab[i].name, name)) { ++g_slot->lab[i].n; return; }
    if (g_slot->nlab < NLAB)
    {
        strncpy(g_slot->lab[g_slot->nlab].name, name, 55);
        g_slot->lab[g_slot->nlab++].n = 1;
    }
}

static double cpu_of(pid_t p)
{
    clockid_t c; timespec t;
    if (clock_getcpuclockid(p, &c) || clock_gettime(c, &t)) return 0;
    return t.tv_sec + t.tv_nsec * 1e-9;
}
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

// every thread of every process of the group sleeps; *ticks: CPU time used so far
static bool group_asleep(pid_t pgid, unsigned long long* ticks)
{
    *ticks = 0;
    DIR* d = opendir("/proc");
    if (!d) return false;
    bool asleep = true; int seen = 0;
    while (dirent* e = readdir(d))
    {
        if (e->d_name[0] < '0' || e->d_name[0] > '9') continue;
        std::string base = std::string("/proc/") + e->d_name + "/task/";
        if (getpgid(atoi(e->d_name)) != pgid) continue;
        DIR* t = opendir(base.c_str());
        if (!t) continue;
        while (dirent* k = readdir(t))
        {
            if (k->d_name[0] < '0' || k->d_name[0] > '9') continue;
            FILE* f = fopen((base + k->d_name + "/stat").c_str(), "r");
            if (!f) { asleep = false; continue; }
            char b[1024]; size_t n = fread(b, 1, sizeof b - 1, f); fclose(f); b[n] = 0;
            char* r = strrchr(b, ')'); char st = 'R'; unsigned long long u = 0, sy = 0;
            if (!r || sscanf(r + 1, " %c %*d %*d %*d %*d %*d %*u %*u %*u %*u %*u %llu %llu", &st, &u, &sy) != 3) { asleep = false; continue; }
            if (st != 'S') asleep = false;
            *ticks += u + sy; ++seen;
        }
        closedir(t);
    }
    closedir(d);
    return asleep && seen > 0;
}
struct Stuck
{
    double since = 0, next = 0; unsigned long long ticks = 0; bool on = false;
    // polled while one case runs in the group; true once nothing has moved for ten seconds
    bool poll(pid_t pgid)
    {
        double t = now_(); 
        if (t < next) return false;
        next = t + 0.5;
        unsigned long long k;
        if (!group_asleep(pgid, &k)) { on = false; return false; }
        if (!on || k != ticks) { on = true; ticks = k; since = t; return false; }
        return t - since > 10;
    }
    static double now_() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
};
static double hang_cpu(const Scenario& sc) { return sc.flags & SLOW ? 900.0 : 60.0; }

// runs one case body in this process; returns empty string if it held
static bool run_body(const Scenario& sc, Src& s, std::string* msg)
{
    g_case = CaseInfo();
    env_case_begin(sc);
    try { sc.fn(s); }
    catch (const PropFail& f) { *msg = f.msg; env_case_end(sc); return false; }
    catch (const Discard&) { if (g_slot) ++g_slot->discards; g_case.nontrivial = false; }
    env_case_end(sc);
    return true;
}

static void account(uint64_t i)
{
    if (!g_slot) return;
    g_slot->checks += g_case.checks;
    if (g_case.nontrivial)
    {
        ++g_slot->nontriv;
        g_keys[i] = g_case.key | 1;
        if (g_slot->nsamp < 4 && !g_case.desc.empty())
        {
            strncpy(g_slot->samp[g_slot->nsamp], g_case.desc.c_str(), 1599);
            ++g_slot->nsamp;
        }
    }
}

static uint64_t case_seed(uint64_t seed, const Scenario& sc, uint64_t i)
{
    return mix64(hash_bytes(sc.name, strlen(sc.name), seed * 1000003 + 17) + i * 0x9e3779b97f4a7c15ULL);
}

typedef std::vector<Bytes> History; // cases run one after another in one process; the last one fails

// fork, run the history, 0 = held, 1 = failed; msg filled on failure
static int try_history(const Scenario& sc, const History& h, std::string* msg, const char* errfile = nullptr, double* used = nullptr)
{
    static char* sh = nullptr;
    if (!sh) sh = (char*)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    memset(sh, 0, 8192);
    fflush(stdout); fflush(stderr);
    pid_t p = fork();
    if (p == 0)
    {
        setpgid(0, 0);
        int fd = open(errfile ? errfile : "/dev/null", O_WRONLY | O_CREAT | O_TRUNC, 0644);
        dup2(fd, 2); dup2(fd, 1);
        rlim_t hang = (rlim_t)hang_cpu(sc) * (h.size() > 50 ? 5 : 1);
        rlimit rl = { hang, hang + 5 };
        setrlimit(RLIMIT_CPU, &rl);
        g_slot = nullptr;
        if (!(sc.flags & FORK_PER_CASE)) env_load(sc);
        for (size_t i = 0; i < h.size(); ++i)
        {
            std::string m;
            if (sc.flags & FORK_PER_CASE)
            {
                pid_t q = fork();
                if (q == 0)
                {
                    env_load(sc);
                    Src s(h[i].data(), h[i].size());
                    if (!run_body(sc, s, &m)) { strncpy(sh, m.c_str(), 4000); sh[4095] = 1; _exit(1); }
                    _exit(0);
                }
                int st; waitpid(q, &st, 0);
                if (sh[4095]) _exit(1);
                if (!WIFEXITED(st) || WEXITSTATUS(st)) { if (WIFSIGNALED(st)) raise(WTERMSIG(st)); _exit(99); }
            }
            else
            {
                Src s(h[i].data(), h[i].size());
                if (!run_body(sc, s, &m)) { strncpy(sh, m.c_str(), 4000); sh[4095] = 1; _exit(1); }
            }
        }
        _exit(0);
    }
    int st = 0;
    double t0 = now();
    bool killed = false;
    Stuck stuck;
    for (;;)
    {
        pid_t r = waitpid(p, &st, WNOHANG);
        if (r == p) break;
        if (now() - t0 > 3 && stuck.poll(p))
        {
            kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0);
            if (used) *used = now() - t0;
            *msg = "does not terminate: every thread of the case waits forever";
            return 1;
        }
        if (now() - t0 > 1200) { kill(-p, SIGKILL); kill(p, SIGKILL); waitpid(p, &st, 0); killed = true; break; }
        usleep(500);
    }
    kill(-p, SIGKILL);
    if (used) *used = now() - t0;
    if (killed) return 0; // wall clock: inconclusive, never a violation
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
    if (sh[4095]) *msg = sh;
    else if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) *msg = "does not terminate: the case used " + std::to_string((int)hang_cpu(sc)) + " s of CPU time";
    else if (WIFSIGNALED(st)) *msg = std::string("process killed by signal ") + strsignal(WTERMSIG(st));
    else *msg = "process aborted with exit status " + std::to_string(WEXITSTATUS(st)) + " (sanitizer report or abort)";
    return 1;
}

static void shrink(const Scenario& sc, History& h, std::string& msg, double budget)
{
    double t0 = now();
    std::string m;
    bool hang = msg.find("does not terminate") != std::string::npos;
    if (hang) budget = 0;
    auto left = [&] { return now() - t0 < budget; };
    auto attempt = [&](const History& c) { if (try_history(sc, c, &m)) { h = c; msg = m; return true; } return false; };
    // history level
    for (size_t step = h.size(); step >= 1 && h.size() > 1 && left(); step /= 2)
        for (size_t at = 0; at + 1 < h.size() && left();)
        {
            History c = h;
            size_t n = std::min(step, h.size() - 1 - at);
            c.erase(c.begin() + at, c.begin() + at + n);
            if (!attempt(c)) at += step;
        }
    // byte level, last case first
    for (size_t k = h.size(); k-- > 0 && left();)
    {
        bool progress = true;
        while (progress && left())
        {
            progress = false;
            for (size_t step = std::max<size_t>(1, h[k].size() / 2); step >= 1 && left(); step /= 2)
            {
                for (size_t at = h[k].size(); at > 0 && left();)
                {
                    size_t b = at > step ? at - step : 0;
                    History c = h;
                    c[k].erase(c[k].begin() + b, c[k].begin() + std::min(at, h[k].size()));
                    if (attempt(c)) { progress = true; at = std::min(b, h[k].size()); } else at = b;
                }
                if (step == 1) break;
            }
            for (size_t step = std::max<size_t>(1, h[k].size() / 2); step >= 1 && left(); step /= 2)
            {
                for (size_t at = 0; at < h[k].size() && left(); at += step)
                {
                    History c = h; bool nz = false;
                    for (size_t i = at; i < std::min(at + step, h[k].size()); ++i) { nz |= c[k][i] != 0; c[k][i] = 0; }
                    if (nz && attempt(c)) progress = true;
                }
                if (step == 1) break;
            }
            if (h[k].size() > 400) break;
        }
        for (size_t i = 0; i < h[k].size() && left(); ++i)
            while (h[k][i] && left())
            {
                History c = h; c[k][i] /= 2;
                if (attempt(c)) continue;
                c = h; --c[k][i];
                if (!attempt(c)) break;
            }
        while (!h[k].empty() && h[k].back() == 0) h[k].pop_back(); // bytes past the end read as 0
    }
}

static void write_replay(const char* path, const Scenario& sc, const History& h, const std::string& msg)
{
    FILE* f = fopen(path, "w");
    if (!f) return;
    std::string one = msg; for (char& c : one) if (c == '\n') c = ' ';
    fprintf(f, "property %s\nscenario %s\nfailure %s\n", sc.prop, sc.name, one.c_str());
    for (auto& b : h) fprintf(f, "case %s\n", hex(b, b.size()).c_str());
    fclose(f);
}
static bool read_replay(const char* path, std::string* name, History* h)
{
    FILE* f = fopen(path, "r");
    if (!f) return false;
    char* line = nullptr; size_t cap = 0; ssize_t n;
    while ((n = getline(&line, &cap, f)) > 0)
    {
        std::string l(line, n); while (!l.empty() && (l.back() == '\n')) l.pop_back();
        if (!l.compare(0, 9, "scenario ")) *name = l.substr(9);
        else if (!l.compare(0, 4, "case")) h->push_back(unhex(l.substr(4)));
    }
    free(line); fclose(f);
    return !name->empty() && !h->empty();
}

static std::string jesc(const std::string& s)
{
    std::string r;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r;
}

struct Report
{
    bool violated = false; std::string msg, replay; uint64_t unconfirmed = 0; std::vector<std::string> unconf;
};

// confirm a failing history 3 times, shrink, confirm again, write the replay file
static bool confirm(const Scenario& sc, History h, const char* replay, double budget, Report* rep)
{
    std::string msg;
    int need = sc.flags & SLOW ? 2 : 3, tries = (sc.flags & THREADED) ? 12 : need, got = 0;
    for (int i = 0; i < tries && got < need; ++i) { if (try_history(sc, h, &msg)) ++got; else if (!(sc.flags & THREADED)) break; }
    if (got < need) return false;
    History orig = h; std::string omsg = msg;
    if (!(sc.flags & (THREADED | SLOW))) shrink(sc, h, msg, budget);
    if (!(sc.flags & SLOW)) got = 0;
    for (int i = 0; i < tries && got < need; ++i) if (try_history(sc, h, &msg, (std::string(replay) + ".log").c_str())) ++got;
    if (got < need) { h = orig; msg = omsg; try_history(sc, h, &msg, (std::string(replay) + ".log").c_str()); }
    write_replay(replay, sc, h, msg);
    rep->violated = true; rep->msg = msg; rep->replay = replay;
    return true;
}

static History regen(const Scenario& sc, uint64_t seed, uint64_t first, uint64_t step, uint64_t last, const Bytes& lastbytes)
{
    // earlier cases are regenerated by running them in a child and collecting the choices
    History h;
    size_t cap = 64u << 20;
    uint8_t* sh = (uint8_t*)mmap(nullptr, cap, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    uint32_t* cnt = (uint32_t*)sh; // [0]=number of cases, then records {len,bytes}
    pid_t p = fork();
    if (p == 0)
    {
        int fd = open("/dev/null", O_WRONLY); dup2(fd, 1); dup2(fd, 2);
        g_slot = nullptr;
        env_load(sc);
        size_t off = 8;
        for (uint64_t i = first; i < last; i += step)
        {
            if (off + 4 + RECCAP > cap) _exit(0);
            volatile uint32_t* l = (uint32_t*)(sh + off);
            *l = 0;
            Recorder r = { sh + off + 4, RECCAP, l };
            Src s(case_seed(seed, sc, i), &r);
            std::string m;
            run_body(sc, s, &m);
            off += 4 + ((*l + 3) & ~3u);
            ++*cnt;
        }
        _exit(0);
    }
    int st; waitpid(p, &st, 0);
    size_t off = 8;
    for (uint32_t k = 0; k < *cnt; ++k)
    {
        uint32_t l = *(uint32_t*)(sh + off);
        h.emplace_back(sh + off + 4, sh + off + 4 + l);
        off += 4 + ((l + 3) & ~3u);
    }
    munmap(sh, cap);
    h.push_back(lastbytes);
    return h;
}

static int cmd_run(const Scenario& sc, uint64_t seed, uint64_t N, int W, double wall, const char* out, const char* replay)
{
    size_t slotsz = (sizeof(Slot) + 4095) & ~size_t(4095);
    uint8_t* base = (uint8_t*)mmap(nullptr, slotsz * W, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    g_keys = (uint64_t*)mmap(nullptr, (N + 1) * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    std::vector<pid_t> pids(W, 0);
    std::vector<uint64_t> startat(W), first(W);
    auto slot = [&](int w) { return (Slot*)(base + slotsz * w); };
    double t0 = now();
    std::string errbase = std::string(replay) + ".err";
    auto spawn = [&](int w)
    {
        fflush(stdout); fflush(stderr);
        pid_t p = fork();
        if (p == 0)
        {
            setpgid(0, 0);
            g_slot = slot(w);
            std::string ef = errbase + std::to_string(w);
            int fd = open(ef.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
            dup2(fd, 2); dup2(fd, 1);
            if (!(sc.flags & FORK_PER_CASE)) env_load(sc);
            for (uint64_t i = startat[w]; i < N; i += W)
            {
                g_slot->idx = i; g_slot->reclen = 0; g_slot->state = 0;
                Recorder r = { g_slot->rec, RECCAP, &g_slot->reclen };
                Src s(case_seed(seed, sc, i), &r);
                std::string m;
                if (sc.flags & FORK_PER_CASE)
                {
                    pid_t q = fork();
                    if (q == 0)
                    {
                        env_load(sc);
                        if (!run_body(sc, s, &m)) { strncpy(g_slot->msg, m.c_str(), 4000); g_slot->state = 1; _exit(1); }
                        account(i);
                        _exit(0);
                    }
                    g_slot->curpid = q;
                    int st; waitpid(q, &st, 0);
                    if (!WIFEXITED(st) || WEXITSTATUS(st)) _exit(98);
                }
                else
                {
                    g_slot->curpid = getpid();
                    if (!run_body(sc, s, &m)) { strncpy(g_slot->msg, m.c_str(), 4000); g_slot->state = 1; _exit(1); }
                    account(i);
                }
                ++g_slot->done;
            }
            g_slot->idx = N;
            _exit(0);
        }
        pids[w] = p;
    };
    for (int w = 0; w < W; ++w) { startat[w] = w; first[w] = w; spawn(w); }
    Report rep;
    int live = W;
    bool timeup = false;
    std::vector<double> cpu0(W, 0); std::vector<uint64_t> lastidx(W, ~0ull); std::vector<pid_t> lastpid(W, 0);
    std::vector<bool> hung(W, false);
    std::vector<Stuck> stuck(W); std::vector<double> since(W, now());
    while (live > 0)
    {
        bool any = false;
        for (int w = 0; w < W && !rep.violated; ++w)
        {
            if (!pids[w]) continue;
            int st;
            pid_t r = waitpid(pids[w], &st, WNOHANG);
            if (r == 0)
            {
                // CPU-time hang detection
                pid_t cp = slot(w)->curpid;
                if (cp)
                {
                    double c = cpu_of(cp);
                    if (lastidx[w] != slot(w)->idx || lastpid[w] != cp) { since[w] = now(); stuck[w] = Stuck(); lastidx[w] = slot(w)->idx; lastpid[w] = cp; cpu0[w] = c; }
                    else if (c - cpu0[w] > hang_cpu(sc)) { hung[w] = true; kill(-pids[w], SIGKILL); }
                    else if (now() - since[w] > 3 && stuck[w].poll(pids[w])) { hung[w] = true; kill(-pids[w], SIGKILL); }
                }
                continue;
            }
            any = true;
            kill(-pids[w], SIGKILL);
            pids[w] = 0; --live;
            if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
            if (timeup) continue;
            // a failing case
            Slot* sl = slot(w);
            Bytes bytes(sl->rec, sl->rec + sl->reclen);
            std::string first_msg = sl->state == 1 ? std::string(sl->msg) : std::string("process died");
            fprintf(stderr, "[%s/%s] case %llu failed: %s\n", sc.prop, sc.name, (unsigned long long)sl->idx, first_msg.c_str());
            // stop the others while confirming
            for (int v = 0; v < W; ++v) if (pids[v]) kill(-pids[v], SIGSTOP);
            bool ok = confirm(sc, History{bytes}, replay, 45, &rep);
            if (!ok && !(sc.flags & FORK_PER_CASE) && !hung[w])
            {
                History h = regen(sc, seed, first[w], W, sl->idx, bytes);
                ok = confirm(sc, h, replay, 90, &rep);
            }
            if (ok) break;
            ++rep.unconfirmed;
            rep.unconf.push_back(first_msg);
            for (int v = 0; v < W; ++v) if (pids[v]) kill(-pids[v], SIGCONT);
            hung[w] = false;
            if (sl->idx + W < N) { startat[w] = sl->idx + W; first[w] = startat[w]; spawn(w); ++live; }
        }
        if (rep.violated) break;
        if (!any) usleep(20000);
        if (!timeup && now() - t0 > wall)
        {
            timeup = true;
            for (int w = 0; w < W; ++w) if (pids[w]) kill(-pids[w], SIGKILL);
        }
    }
    for (int w = 0; w < W; ++w) if (pids[w]) { kill(-pids[w], SIGKILL); int st; waitpid(pids[w], &st, 0); }
    // ---- report
    uint64_t done = 0, nontriv = 0, checks = 0, disc = 0;
    std::map<std::string, uint64_t> labs;
    std::vector<std::string> samples;
    for (int w = 0; w < W; ++w)
    {
        Slot* sl = slot(w);
        done += sl->done; nontriv += sl->nontriv; checks += sl->checks; disc += sl->discards;
        for (int i = 0; i < sl->nlab; ++i) labs[sl->lab[i].name] += sl->lab[i].n;
        for (int i = 0; i < sl->nsamp && i < 1; ++i) if (samples.size() < 5) samples.push_back(sl->samp[i]);
        unlink((errbase + std::to_string(w)).c_str());
    }
    std::set<uint64_t> keys;
    for (uint64_t i = 0; i < N; ++i) if (g_keys[i]) keys.insert(g_keys[i]);
    FILE* f = fopen(out, "w");
    fprintf(f, "{\"scenario\":\"%s\",\"planned\":%llu,\"evaluations\":%llu,\"checks\":%llu,\"nontrivial\":%llu,\"distinct_nontrivial\":%zu,\"discards\":%llu,\"timeup\":%s,\"wall_s\":%.2f,\"unconfirmed\":%llu,",
            sc.name, (unsigned long long)N, (unsigned long long)done, (unsigned long long)checks, (unsigned long long)nontriv, keys.size(),
            (unsigned long long)disc, timeup ? "true" : "false", now() - t0, (unsigned long long)rep.unconfirmed);
    fprintf(f, "\"rule\":\"%s\",\"labels\":{", jesc(sc.rule).c_str());
    bool c = false;
    for (auto& l : labs) { fprintf(f, "%s\"%s\":%llu", c ? "," : "", jesc(l.first).c_str(), (unsigned long long)l.second); c = true; }
    fprintf(f, "},\"samples\":[");
    for (size_t i = 0; i < samples.size(); ++i) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(samples[i]).c_str());
    fprintf(f, "],\"unconfirmed_msgs\":[");
    for (size_t i = 0; i < rep.unconf.size() && i < 5; ++i) fprintf(f, "%s\"%s\"", i ? "," : "", jesc(rep.unconf[i]).c_str());
    fprintf(f, "],\"violated\":%s,\"message\":\"%s\",\"replay\":\"%s\"}\n", rep.violated ? "true" : "false", jesc(rep.msg).c_str(), jesc(rep.replay).c_str());
    fclose(f);
    return rep.violated ? 1 : 0;
}

#ifdef WITH_FUZZER
extern "C" int LLVMFuzzerRunDriver(int* argc, char*** argv, int (*cb)(const uint8_t*, size_t));
static const Scenario* g_fuzz = nullptr;
static int fuzz_cb(const uint8_t* d, size_t n)
{
    Src s(d, n);
    std::string m;
    if (!run_body(*g_fuzz, s, &m)) { fprintf(stderr, "PROPERTY FAILURE: %s\n", m.c_str()); abort(); }
    return 0;
}
#endif

static const Scenario* find(const char* n)
{
    for (auto& s : scenarios()) if (!strcmp(s.name, n)) return &s;
    fprintf(stderr, "no scenario %s\n", n);
    _exit(3);
}

int main(int argc, char** argv)
{
    if (argc < 2) return 3;
    env_init();
    if (argc >= 2 && !strcmp(argv[1], "list"))
    {
        for (auto& s : scenarios()) printf("%s %s %u %u %u %s\n", s.prop, s.name, s.quick, s.thorough, s.flags, s.variant);
        return 0;
    }
    if (!strcmp(argv[1], "run") || !strcmp(argv[1], "selfcheck")) { ref::selfcheck(); dk::selfcheck(); }
    if (!strcmp(argv[1], "selfcheck")) return 0;
    if (argc >= 9 && !strcmp(argv[1], "run")) // run scenario seed N W wall out replay
        return cmd_run(*find(argv[2]), strtoull(argv[3], 0, 10), strtoull(argv[4], 0, 10), atoi(argv[5]), atof(argv[6]), argv[7], argv[8]);
    if (argc >= 3 && !strcmp(argv[1], "replay"))
    {
        std::string n; History h;
        if (!read_replay(argv[2], &n, &h)) { fprintf(stderr, "cannot read %s\n", argv[2]); return 3; }
        const Scenario& sc = *find(n.c_str());
        std::string m;
        int r = try_history(sc, h, &m, argc > 3 ? argv[3] : "/dev/stderr");
        if (r) printf("FAILED %s %s: %s\n", sc.prop, sc.name, m.c_str()); else printf("held %s %s\n", sc.prop, sc.name);
        return r;
    }
    if (argc >= 4 && !strcmp(argv[1], "one")) // one scenario seed idx : run in process
    {
        const Scenario& sc = *find(argv[2]);
        env_load(sc);
        Src s(case_seed(strtoull(argv[3], 0, 10), sc, argc > 4 ? strtoull(argv[4], 0, 10) : 0), nullptr);
        std::string m;
        bool ok = run_body(sc, s, &m);
        printf("%s\ndesc: %s\n", ok ? "held" : m.c_str(), g_case.desc.c_str());
        return !ok;
    }
    if (argc >= 5 && !strcmp(argv[1], "confirm")) // confirm scenario rawfile out replay : a libFuzzer artifact
    {
        const Scenario& sc = *find(argv[2]);
        Bytes b; FILE* f = fopen(argv[3], "rb"); if (!f) return 3;
        int c; while ((c = fgetc(f)) != EOF) b.push_back(uint8_t(c)); fclose(f);
        Report rep;
        bool ok = confirm(sc, History{b}, argv[4], 45, &rep);
        printf("%s\n", ok ? rep.msg.c_str() : "unconfirmed");
        return ok ? 1 : 0;
    }
    if (argc >= 6 && !strcmp(argv[1], "seedcorpus")) // seedcorpus scenario seed N dir
    {
        const Scenario& sc = *find(argv[2]);
        env_load(sc);
        uint64_t N = strtoull(argv[4], 0, 10);
        std::vector<uint8_t> buf(RECCAP); 
        for (uint64_t i = 0; i < N; ++i)
        {
            uint32_t l = 0; Recorder r = { buf.data(), RECCAP, &l };
            Src s(case_seed(strtoull(argv[3], 0, 10) + 77, sc, i), &r); std::string m;
            run_body(sc, s, &m);
            std::string fn = std::string(argv[5]) + "/seed" + std::to_string(i);
            FILE* f = fopen(fn.c_str(), "wb"); if (!f) return 3;
            fwrite(buf.data(), 1, l, f); fclose(f);
        }
        return 0;
    }
#ifdef WITH_FUZZER
    if (argc >= 3 && !strcmp(argv[1], "fuzz")) // fuzz scenario libfuzzer-args...
    {
        g_fuzz = find(argv[2]);
        env_load(*g_fuzz);
        std::vector<char*> a; a.push_back(argv[0]);
        for (int i = 3; i < argc; ++i) a.push_back(argv[i]);
        a.push_back(nullptr);
        int n = int(a.size()) - 1; char** p = a.data();
        return LLVMFuzzerRunDriver(&n, &p, fuzz_cb);
    }
#endif
    fprintf(stderr, "usage\n");
    return 3;
}
