// P21, P22: the random generator against a model of the DSTU 4145 bit stream.
#include "gen.h"
#include <link.h>
#include <string.h>
#include <set>
#include <thread>
#include <atomic>
#include <memory>
#include <map>
#include <pthread.h>

namespace
{
struct Stream
{
    std::unique_ptr<ref::Gost> g; uint8_t I[8], st[8];
    Stream(const uint8_t seed[40], int64_t t)
    {
        g.reset(new ref::Gost(ref::dflt(), seed));
        uint8_t D[8]; for (int i = 0; i < 8; ++i) D[i] = uint8_t((uint64_t)t >> (8 * i));
        g->enc(D, I); memcpy(st, seed + 32, 8);
    }
    uint8_t next()
    {
        uint8_t b = 0;
        for (int j = 0; j < 8; ++j)
        {
            uint8_t x[8], y[8];
            for (int i = 0; i < 8; ++i) y[i] = I[i] ^ st[i];
            g->enc(y, x);
            for (int i = 0; i < 8; ++i) y[i] = I[i] ^ x[i];
            g->enc(y, st);
            b |= (x[0] & 1) << j;
        }
        return b;
    }
    Bytes take(size_t n) { Bytes r(n); for (auto& x : r) x = next(); return r; }
};
const RAND_METHOD* M()
{
    const RAND_METHOD* m = ENGINE_get_RAND(g_engine);
    if (!m || !m->bytes) FAIL("the engine has no random generator");
    return m;
}
void arm(Src& s)
{
    g_seed.active = true;
    g_seed.seed = s.bits(4);
    if (s.chance(60)) g_seed.bytes = s.blob(40 + s.below(50));
    g_seed.fake_time = true;
    switch (s.below(5))
    {
        case 0: g_seed.time = 1700000000 + (int64_t)s.below(1 << 24); break;
        case 1: g_seed.time = 0; break;
        case 2: g_seed.time = (int64_t)s.bits(8); break;         // all eight bytes matter
        case 3: g_seed.time = -(int64_t)s.below(100000); break;
        default: g_seed.time = (int64_t)s.bits(5);
    }
}
Bytes delivered() { Bytes all; for (auto& g : g_seed.given) all.insert(all.end(), g.begin(), g.end()); return all; }

// the generator as the model sees it
struct Model
{
    std::unique_ptr<Stream> st; size_t from = 0; uint64_t tcalls = 0; int64_t t0 = 0;
    void fresh() { st.reset(); from = delivered().size(); }
    // called when the first bytes after a (re)seeding are known
    bool match(const Bytes& got)
    {
        if (!st)
        {
            Bytes all = delivered();
            if (all.size() < from + 40) { if (got.empty()) return true; FAIL("random bytes were returned although only %zu bytes of seed were taken", all.size() - from); }
            const uint8_t* seed = all.data() + all.size() - 40;
            std::vector<int64_t> times;
            if (g_seed.time_calls) times.push_back(g_seed.time);
            else { timespec ts; clock_gettime(CLOCK_REALTIME, &ts); for (int64_t d = -3; d <= 3; ++d) times.push_back(ts.tv_sec + d); }
            for (int64_t t : times)
            {
                std::unique_ptr<Stream> c(new Stream(seed, t));
                if (got.empty()) continue;
                if (c->take(got.size()) == got) { st = std::move(c); return true; }
            }
            return got.empty();
        }
        return st->take(got.size()) == got;
    }
};
Bytes request(Src& s, const RAND_METHOD* m, size_t n, int* ok, int route)
{
    std::unique_ptr<uint8_t[]> b(new uint8_t[n]);
    memset(b.get(), s.flip() ? 0xff : 0x5a, n);
    switch (route)
    {
        case 1: *ok = m->pseudorand(b.get(), (int)n); break;
        case 2: *ok = RAND_bytes(b.get(), (int)n); break;
        case 3: *ok = RAND_priv_bytes(b.get(), (int)n); break;
        default: *ok = m->bytes(b.get(), (int)n);
    }
    return Bytes(b.get(), b.get() + n);
}

// one history of the generator; fresh: the library has never been used in this process
void history(Src& s, bool fresh, bool viaRand)
{
    const RAND_METHOD* m = M();
    arm(s);
    if (!fresh) m->cleanup();
    Model md; md.fresh();
    int ops = 1 + (int)s.below(14); size_t total = 0; int pieces = 0, seeds = 0; bool faulted = false;
    for (int i = 0; i < ops; ++i)
    {
        unsigned op = (unsigned)s.below(16);
        if (op < 10)
        {
            size_t n;
            switch (s.below(6)) { case 0: n = 0; break; case 1: n = 1; break; case 2: n = 1 + s.below(16); break; case 3: n = s.len(300); break; case 4: n = 8 * s.below(12); break; default: n = s.below(80); }
            if (s.chance(3)) n = 1000 + s.below(4000);
            int route = viaRand ? 2 + (int)s.below(2) : (int)s.below(2), ok = 0;
            bool was = md.st != nullptr;
            Bytes got = request(s, m, n, &ok, route);
            REQUIRE(ok == 1, "a request of %zu bytes with a working seeding source reports %d", n, ok);
            REQUIRE(md.match(got), "a request of %zu bytes (after %zu bytes in %d requests) is not the next piece of the stream: %s", n, total, pieces, hex(got, 40).c_str());
            if (!was && md.st) ++seeds;
            checked(); total += n; pieces += n != 0;
            label(was ? "continued" : "first piece after seeding");
        }
        else if (op == 10) { int r = m->status(); REQUIRE(r == 1, "status is %d with a working seeding source", r); checked(); label("status"); }
        else if (op == 11) { Bytes x = s.raw(s.below(20)); x.push_back(1); m->seed(x.data(), (int)x.size()); label("seed"); }
        else if (op == 12) { Bytes x = s.raw(s.below(20)); x.push_back(1); m->add(x.data(), (int)x.size(), 1.0); label("add"); }
        else if (op == 13) { m->cleanup(); if (s.flip()) m->cleanup(); if (s.flip()) g_seed.time += (int64_t)s.below(1000); md.fresh(); label("cleanup"); total = 0; pieces = 0; }
        else
        {
            // the seeding source stops working: a generator that still has to be seeded must say so
            if (s.flip()) { m->cleanup(); md.fresh(); total = 0; pieces = 0; }
            size_t before = delivered().size();
            bool seeded = md.st != nullptr || before > md.from;
            int how = (int)s.below(2);
            if (how) g_seed.status = 0; else g_seed.fail_from = (int64_t)g_seed.calls + (s.chance(40) ? 1 : 0);
            int reps = 1 + (int)s.below(3);
            for (int r = 0; r < reps; ++r)
            {
                int ok = -5; size_t n = s.below(40);
                Bytes got = request(s, m, n, &ok, viaRand ? 2 : (int)s.below(2));
                bool late = delivered().size() > before && !seeded;    // the failure was set for a later call
                if (late) { md.fresh(); seeded = true; md.from = before; }
                if (!seeded)
                {
                    REQUIRE(ok != 1, "a request of %zu bytes succeeds although the generator could not be seeded", n);
                    label("unseeded request refused"); checked(); faulted = true;
                    if (s.chance(60) && how == 0) { int st = m->status(); REQUIRE(st == 0, "status is %d although seeding fails", st); checked(); }
                }
                else
                {
                    REQUIRE(ok == 1, "a seeded generator refuses a request of %zu bytes", n);
                    REQUIRE(md.match(got), "a request of %zu bytes is not the next piece of the stream", n);
                    checked(); total += n; pieces += n != 0; label("seeded before the failure");
                }
            }
            g_seed.status = 1; g_seed.fail_from = -1;
        }
    }
    // whatever happened, the stream goes on
    int ok = 0; Bytes got = request(s, m, 24, &ok, viaRand ? 2 : 0);
    REQUIRE(ok == 1 && md.match(got), "the last 24 bytes are not the next piece of the stream (result %d)", ok);
    checked();
    if (pieces >= 2 || faulted) nontrivial();
    note("ops=%d requests=%d bytes=%zu seedings=%d time=%lld%s", ops, pieces, total, seeds, (long long)g_seed.time, viaRand ? " RAND_bytes" : "");
}
struct Restore { ~Restore() { g_seed.status = 1; g_seed.fail_from = -1; } };
}

SCENARIO("P21", stream_histories, 4000, 60000, 0, "two or more non-empty requests of one stream, or a request refused for want of a seed")
{
    Restore r; history(s, false, false);
}
SCENARIO_OPT("P21", stream_optimized, 2000, 30000, 0, "two or more non-empty requests of one stream, or a request refused for want of a seed")
{
    Restore r; history(s, false, false);
}
// requests far above the usual sizes
SCENARIO_OPT("P21", long_requests, 30, 1200, 0, "a request of more than 64 KiB")
{
    Restore r; const RAND_METHOD* m = M(); arm(s); m->cleanup(); Model md; md.fresh();
    size_t total = 0, big = 0; int ops = 1 + (int)s.below(3);
    for (int i = 0; i < ops; ++i)
    {
        static const size_t top[] = {60, 9000, 70000, 140000, 270000};
        size_t n = s.below(top[s.below(5)]); int ok = 0;
        if (i + 1 == ops && big < 65536) n = 65537 + s.below(10000);
        Bytes got = request(s, m, n, &ok, (int)s.below(2));
        REQUIRE(ok == 1, "a request of %zu bytes with a working seeding source reports %d", n, ok);
        REQUIRE(md.match(got), "a request of %zu bytes (after %zu bytes) is not the next piece of the stream", n, total);
        total += n; big = std::max(big, n); checked();
    }
    int ok = 0; Bytes got = request(s, m, 24, &ok, 0);
    REQUIRE(ok == 1 && md.match(got), "the 24 bytes after %zu are not the next piece of the stream (result %d)", total, ok);
    checked(); nontrivial(); note("requests=%d bytes=%zu largest=%zu", ops, total, big);
}
SCENARIO("P21", first_seeding, 200, 3000, FORK_PER_CASE, "two or more non-empty requests of one stream, or a request refused for want of a seed")
{
    Restore r; history(s, true, false);
}
SCENARIO("P21", through_rand_bytes, 200, 3000, FORK_PER_CASE, "two or more non-empty requests of one stream, or a request refused for want of a seed")
{
    Restore r;
    const RAND_METHOD* old = RAND_get_rand_method();
    if (!RAND_set_rand_engine(g_engine)) FAIL("the engine cannot be made the source of random bytes: %s", err_text().c_str());
    try { history(s, true, true); }
    catch (...) { RAND_set_rand_method(old); throw; }
    RAND_set_rand_method(old);
}

// P27: the generator is used for the first time while memory is short. Each request is refused or answered with the right bytes.
SCENARIO("P27", memory_runs_out_for_random, 120, 3000, FORK_PER_CASE, "an allocation failed inside a request")
{
    Restore r; const RAND_METHOD* m = M(); arm(s); Model md; md.fresh();
    uint64_t hits = 0; int ops = 1 + (int)s.below(6), done = 0; bool first = s.chance(200);
    for (int i = 0; i <= ops; ++i)
    {
        uint64_t k = 1 + s.below(3); bool all = s.flip(), fails = i == 0 ? first : s.chance(100); unsigned op = (unsigned)s.below(6); size_t n = s.below(40); int ok = 0;
        if (fails) g_memfault.arm(k, all);
        if (op == 0) { int st = m->status(); g_memfault.off(); REQUIRE(st == 1 || g_memfault.struck || hits, "status is %d with a working seeding source", st); }
        else if (op == 1) { m->cleanup(); g_memfault.off(); if (!(fails && g_memfault.struck) && !hits) md.fresh(); else if (!md.st) md.fresh(); else break; }   // released or not: nothing says which
        else
        {
            Bytes got = request(s, m, n, &ok, op & 1); g_memfault.off();
            if (ok == 1) { REQUIRE(md.match(got), "request %d (%zu bytes) is answered with other bytes than the stream's: %s", i, n, hex(got, 40).c_str()); ++done; }
            else REQUIRE((fails && g_memfault.struck) || hits, "request %d is refused although memory is there", i);
        }
        if (fails) hits += g_memfault.struck;
        checked();
    }
    if (hits) nontrivial();
    note("first use %s, %llu failures, %d requests answered", first ? "without memory" : "with memory", (unsigned long long)hits, done);
}

// ---------------------------------------------------------------- P22
namespace
{
struct Piece { Bytes b; int thread, no; };
void concurrent(Src& s, bool fresh)
{
    const RAND_METHOD* m = M();
    arm(s);
    if (!fresh) m->cleanup();
    int T = 2 + (int)s.below(7);
    bool seeded = !fresh && s.chance(80), cleaner = s.chance(50);
    g_seed.bytes.clear();             // patterned seeds give periodic streams, whose pieces cannot be told apart
    size_t pre = 0; Bytes first;
    if (seeded) { pre = s.below(20); first.resize(pre); if (m->bytes(first.data(), (int)pre) != 1) FAIL("request failed"); }
    std::vector<std::vector<size_t>> want(T);
    std::vector<int> kinds(T);
    size_t total = pre;
    for (int t = 0; t < T; ++t)
    {
        int k = 1 + (int)s.below(8);
        kinds[t] = (int)s.below(4);
        for (int i = 0; i < k; ++i) { size_t n = s.chance(20) ? 200 + s.below(400) : 8 + s.below(40); want[t].push_back(n); total += n; }
    }
    std::vector<std::vector<Piece>> got(T);
    std::vector<int> bad(T, 0);
    races_reset();
    pthread_barrier_t bar; pthread_barrier_init(&bar, nullptr, T + (cleaner ? 1 : 0));
    std::vector<std::thread> th;
    for (int t = 0; t < T; ++t)
        th.emplace_back([&, t] {
            pthread_barrier_wait(&bar);
            for (size_t i = 0; i < want[t].size(); ++i)
            {
                Bytes b(want[t][i], 0x5a);
                int ok = (kinds[t] & 1) ? m->pseudorand(b.data(), (int)b.size()) : m->bytes(b.data(), (int)b.size());
                if (ok != 1) bad[t] = 1;
                if (kinds[t] == 2 && i == 0 && m->status() != 1) bad[t] = 2;
                got[t].push_back(Piece{std::move(b), t, (int)i});
            }
        });
    int cleanups = cleaner ? 1 + (int)s.below(3) : 0;
    if (cleaner)
        th.emplace_back([&] {
            pthread_barrier_wait(&bar);
            for (int i = 0; i < cleanups; ++i) m->cleanup();
        });
    for (auto& t : th) t.join();
    pthread_barrier_destroy(&bar);
    std::string rc = races();
    REQUIRE(rc.empty(), "%s", rc.c_str());
    for (int t = 0; t < T; ++t) { REQUIRE(bad[t] != 1, "a request of thread %d failed", t); REQUIRE(bad[t] != 2, "status reports failure in thread %d", t); }
    // the streams that existed, in order of seeding
    Bytes all = delivered();
    REQUIRE(all.size() % 40 == 0 && all.size() >= 40, "%zu bytes of seed were taken", all.size());
    if (!cleaner) REQUIRE(all.size() == 40, "the generator was seeded %zu times", all.size() / 40);
    std::vector<Bytes> streams;
    std::map<Bytes, std::pair<int, size_t>> where;
    for (size_t k = 0; k < all.size() / 40; ++k)
    {
        Stream st(all.data() + 40 * k, g_seed.time);
        streams.push_back(st.take(total + 8));
        const Bytes& x = streams.back();
        for (size_t i = 0; i + 8 <= x.size(); ++i) where[Bytes(x.begin() + i, x.begin() + i + 8)] = {(int)k, i};
    }
    std::map<std::pair<int, size_t>, size_t> tiles;
    std::string why;
    size_t interleave = 0; int lastT = -1;
    std::map<std::pair<int, size_t>, int> owner;
    if (pre)
    {
        REQUIRE(std::equal(first.begin(), first.end(), streams[0].begin()), "the bytes requested before the threads start are not the beginning of the stream");
        tiles[{0, 0}] = pre; 
    }
    for (int t = 0; t < T; ++t)
    {
        std::pair<int, size_t> prev{-1, 0};
        for (auto& p : got[t])
        {
            auto it = where.find(Bytes(p.b.begin(), p.b.begin() + 8));
            REQUIRE(it != where.end(), "thread %d received bytes that are no piece of the stream: %s", t, hex(p.b, 24).c_str());
            auto at = it->second; const Bytes& x = streams[at.first];
            REQUIRE(at.second + p.b.size() <= x.size() && std::equal(p.b.begin(), p.b.end(), x.begin() + at.second),
                    "thread %d received a torn piece at offset %zu of stream %d (total %zu, seeds %s): %s", t, at.second, at.first, total, hex(all).c_str(), hex(p.b).c_str());
            REQUIRE(!tiles.count(at), "a piece at offset %zu of the stream was delivered twice", at.second);
            REQUIRE(at > prev, "thread %d received an older piece after a newer one", t);
            tiles[at] = p.b.size(); owner[at] = t; prev = at;
            checked();
        }
    }
    std::map<int, size_t> end;
    for (auto& t : tiles)
    {
        size_t& e = end[t.first.first];
        REQUIRE(t.first.second == e, "the stream %s at offset %zu (next piece at %zu)", t.first.second < e ? "was delivered twice" : "has a gap", e, t.first.second);
        e += t.second;
    }
    for (auto& o : owner) { if (lastT >= 0 && o.second != lastT) ++interleave; lastT = o.second; }
    checked();
    if (interleave >= (size_t)T) { nontrivial(); label("interleaved"); } else label("little interleaving");
    if (cleaner) label("with cleanup");
    if (!seeded) label("seeding race");
    note("threads=%d requests total=%zu bytes switches=%zu seedings=%zu", T, total, interleave, all.size() / 40);
}
}
SCENARIO_OPT("P22", pieces_tile, 1500, 60000, THREADED, "the pieces of different threads alternate in the stream at least as often as there are threads")
{
    concurrent(s, false);
}
SCENARIO_OPT("P22", pieces_first_use, 300, 4000, THREADED | FORK_PER_CASE, "the pieces of different threads alternate in the stream at least as often as there are threads")
{
    concurrent(s, true);
}
SCENARIO_TSAN("P22", no_race, 250, 30000, THREADED, "the pieces of different threads alternate in the stream at least as often as there are threads")
{
    concurrent(s, false);
}
SCENARIO_TSAN("P22", no_race_first_use, 80, 4000, THREADED | FORK_PER_CASE, "the pieces of different threads alternate in the stream at least as often as there are threads")
{
    concurrent(s, true);
}

// P30: processes that share a past (fork) never share random output.
#include "dk.h"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
namespace
{
struct Record { uint32_t len; int16_t proc; int16_t kind; int32_t epoch; };   // kind 0 random bytes, 1 signature, 2 generated key, 9 a failure
struct Log
{
    uint8_t* base; size_t cap; std::atomic<size_t>* at;
    explicit Log(size_t n) : cap(n) { base = (uint8_t*)mmap(nullptr, n, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); if (base == MAP_FAILED) throw Discard(); at = new (base) std::atomic<size_t>(64); }
    ~Log() { munmap(base, cap); }
    void put(int proc, int kind, int epoch, const void* p, size_t n)
    {
        size_t need = (sizeof(Record) + n + 7) & ~size_t(7), o = at->fetch_add(need);
        if (o + need > cap) { fprintf(stderr, "log full\n"); abort(); }
        Record r; memset(&r, 0, sizeof r); r.len = (uint32_t)n; r.proc = (int16_t)proc; r.kind = (int16_t)kind; r.epoch = epoch;
        memcpy(base + o + sizeof r, p, n); memcpy(base + o, &r, sizeof r);
    }
};
struct ProcOp { int op; size_t n; int route; int child; bool wait; };
struct Proc { std::vector<ProcOp> ops; int depth; };
struct Family
{
    std::vector<Proc> procs; bool viaRand; uint64_t seed; Log* log; EVP_PKEY* key; Bytes tbs; const RAND_METHOD* m;
    void plan(Src& s, int depth)
    {
        int me = (int)procs.size(); procs.push_back({{}, depth});
        int n = 1 + (int)s.below(depth ? 4 : 6); bool forked = false;
        for (int i = 0; i < n || (!depth && !forked); ++i)
        {
            ProcOp o = {(int)s.below(16), 0, 0, -1, s.flip()};
            if (i >= n) o.op = 12;
            if (o.op >= 12 && (depth >= 3 || procs.size() > 5)) o.op = (int)s.below(6);
            switch (s.below(4)) { case 0: o.n = 1 + s.below(3); break; case 1: o.n = s.below(20); break; case 2: o.n = 16 + s.below(60); break; default: o.n = s.len(300); }
            o.route = viaRand ? 2 + (int)s.below(2) : (int)s.below(2);
            if (o.op >= 12) { o.child = (int)procs.size(); forked = true; plan(s, depth + 1); }
            procs[me].ops.push_back(o);
        }
        procs[me].ops.push_back({0, 16 + s.below(20), viaRand ? 2 : 0, -1, false});
    }
    void run(int me, Model& md, int epoch, bool known)
    {
        std::vector<pid_t> kids;
        auto reap = [&](pid_t q) { int st; if (waitpid(q, &st, 0) != q) FAIL("waitpid"); REQUIRE(WIFEXITED(st) && WEXITSTATUS(st) == 0, "a forked process ended with status %x", st); };
        for (auto& o : procs[me].ops)
        {
            if (o.op < 7)
            {
                Bytes b(o.n + 1, 0x5a); int ok = 0;
                switch (o.route) { case 1: ok = m->pseudorand(b.data(), (int)o.n); break; case 2: ok = RAND_bytes(b.data(), (int)o.n); break; case 3: ok = RAND_priv_bytes(b.data(), (int)o.n); break; default: ok = m->bytes(b.data(), (int)o.n); }
                b.resize(o.n);
                REQUIRE(ok == 1, "process %d (depth %d): a request of %zu bytes reports %d", me, procs[me].depth, o.n, ok);
                if (known) REQUIRE(md.match(b), "process %d (depth %d): %zu random bytes are not the next piece of the stream of this process: %s", me, procs[me].depth, o.n, hex(b, 40).c_str());
                log->put(me, 0, epoch, b.data(), b.size());
            }
            else if (o.op == 7) { int r = m->status(); REQUIRE(r == 1, "process %d: status is %d", me, r); }
            else if (o.op == 8) { m->cleanup(); md.fresh(); known = true; ++epoch; }
            else if (o.op == 9)
            {
                PKeyCtx c(EVP_PKEY_CTX_new(key, g_engine)); Bytes q(400); size_t l = q.size();
                REQUIRE(c && EVP_PKEY_sign_init(c) == 1 && EVP_PKEY_sign(c, q.data(), &l, tbs.data(), tbs.size()) == 1, "process %d: signing fails: %s", me, err_text().c_str());
                log->put(me, 1, epoch, q.data(), l); if (viaRand) { known = false; ++epoch; }
            }
            else if (o.op == 10)
            {
                PKeyCtx c(EVP_PKEY_CTX_new_id(OBJ_txt2nid("dstu4145le"), g_engine)); EVP_PKEY* k = nullptr;
                REQUIRE(c && EVP_PKEY_keygen_init(c) == 1 && EVP_PKEY_keygen(c, &k) == 1, "process %d: a key cannot be generated: %s", me, err_text().c_str());
                PKey own(k); uint8_t* t = nullptr; int n = i2d_PUBKEY(k, &t); REQUIRE(n > 0, "process %d: a generated key cannot be encoded", me);
                log->put(me, 2, epoch, t, n); OPENSSL_free(t); if (viaRand) { known = false; ++epoch; }
            }
            else if (o.op == 11)
            {
                // seeding does not work for a moment: a process that still needs a seed must not go on with another's
                size_t before = delivered().size(); bool seeded = md.st != nullptr || before > md.from || !known;
                g_seed.fail_from = (int64_t)g_seed.calls;
                Bytes b(o.n + 16, 0x5a); int ok = o.route == 2 || o.route == 3 ? RAND_bytes(b.data(), (int)b.size()) : m->bytes(b.data(), (int)b.size());
                g_seed.fail_from = -1; ERR_clear_error();
                if (!seeded) REQUIRE(ok != 1, "process %d (depth %d): random bytes are given although the generator could not be seeded in this process", me, procs[me].depth);
                if (ok == 1) { if (known) REQUIRE(md.match(b), "process %d: a piece of %zu bytes is not the next of its stream", me, b.size()); log->put(me, 0, epoch, b.data(), b.size()); }
                else if (!known) { REQUIRE(0, "process %d: a seeded generator fails", me); }
                else md.fresh();
            }
            else
            {
                fflush(nullptr);
                pid_t q = fork();
                if (q < 0) throw Discard();
                if (!q)
                {
                    int rc = 0;
                    try
                    {
                        g_seed.seed = mix64(seed + (uint64_t)o.child); g_seed.bytes.clear(); g_seed.pos = 0; g_seed.delivered = 0; g_seed.calls = 0; g_seed.given.clear(); g_seed.time_calls = 0;
                        if (!viaRand) g_rng.reset(mix64(seed + 77 + (uint64_t)o.child));
                        Model mine; mine.fresh(); run(o.child, mine, 0, true);
                    }
                    catch (PropFail& f) { log->put(o.child, 9, 0, f.msg.data(), f.msg.size()); }
                    catch (...) { rc = 77; }
                    _exit(rc);
                }
                if (o.wait) reap(q); else kids.push_back(q);
            }
        }
        for (auto q : kids) reap(q);
    }
};
}
SCENARIO_OPT("P30", forked_processes, 1500, 40000, FORK_PER_CASE, "a process and one forked from it both took random bytes, signatures or keys")
{
    Restore r; Family f; f.m = M(); f.viaRand = s.flip(); f.seed = s.bits(8); f.tbs = s.noise(32);
    dk::RefKey k = dk::gen_key(s, 0); PKey key = dk::eng_priv(k); f.key = key;
    Log log(1 << 20); f.log = &log;
    arm(s); g_seed.bytes.clear(); f.plan(s, 0);
    const RAND_METHOD* old = RAND_get_rand_method();
    if (f.viaRand && !RAND_set_rand_engine(g_engine)) FAIL("the engine cannot be made the source of random bytes: %s", err_text().c_str());
    struct Back { const RAND_METHOD* m; ~Back() { RAND_set_rand_method(m); } } back{old};
    Model md; md.fresh(); f.run(0, md, 0, true);
    // what all processes took
    std::map<std::pair<int, int>, Bytes> streams; std::map<Bytes, int> things; std::map<int, int> active; size_t end = log.at->load();
    for (size_t o = 64; o < end;)
    {
        Record q; memcpy(&q, log.base + o, sizeof q); Bytes b(log.base + o + sizeof q, log.base + o + sizeof q + q.len); o += (sizeof q + q.len + 7) & ~size_t(7);
        if (q.kind == 9) FAIL("%s", std::string(b.begin(), b.end()).c_str());
        if (!b.empty()) ++active[q.proc];
        if (q.kind == 0) { auto& x = streams[{q.proc, q.epoch}]; x.insert(x.end(), b.begin(), b.end()); continue; }
        auto in = things.insert({b, q.proc});
        REQUIRE(in.second, "process %d and process %d %s", in.first->second, q.proc, q.kind == 1 ? "made the same signature (the same secret nonce)" : "generated the same key");
        checked(); label(q.kind == 1 ? "signature" : "generated key");
    }
    std::map<uint64_t, std::pair<int, size_t>> seen;
    for (auto& st : streams)
        for (size_t i = 0; i + 8 <= st.second.size(); ++i)
        {
            uint64_t w; memcpy(&w, st.second.data() + i, 8);
            auto in = seen.insert({w, {st.first.first, i}});
            REQUIRE(in.second, "the random bytes %s were given to process %d and to process %d", hex(st.second.data() + i, 8).c_str(), in.first->second.first, st.first.first);
        }
    checked(); { char t[32]; snprintf(t, sizeof t, "%zu processes", f.procs.size()); label(t); }
    label(f.viaRand ? "as the default generator" : "asked directly");
    if (active.size() > 1) nontrivial();
    note("%zu processes, %zu pieces of stream, %zu signatures and keys", f.procs.size(), streams.size(), things.size());
}

// P32: what the generator was made of is gone once it is cleaned up
namespace
{
struct Segs { std::vector<std::pair<const uint8_t*, size_t>> v; };
int each_module(dl_phdr_info* i, size_t, void* p)
{
    if (!i->dlpi_name || !strstr(i->dlpi_name, "dstu.so")) return 0;
    for (int k = 0; k < i->dlpi_phnum; ++k)
    {
        auto& h = i->dlpi_phdr[k];
        if (h.p_type == PT_LOAD && (h.p_flags & PF_W)) ((Segs*)p)->v.push_back({(const uint8_t*)(i->dlpi_addr + h.p_vaddr), h.p_memsz});
    }
    return 0;
}
__attribute__((no_sanitize("address"), no_sanitize("thread"), noinline)) Bytes image_of_module()
{
    Segs g; dl_iterate_phdr(each_module, &g); size_t n = 0; for (auto& x : g.v) n += x.second;
    Bytes r(n); uint8_t* o = r.data(); for (auto& x : g.v) { const volatile uint8_t* q = x.first; for (size_t i = 0; i < x.second; ++i) *o++ = q[i]; }
    return r;
}
}
SCENARIO("P32", generator_wiped, 3000, 60000, 0, "random bytes had been taken")
{
    const RAND_METHOD* m = M(); g_seed.active = true; g_seed.fake_time = true; g_seed.time = 1700000000 + (int64_t)s.below(1 << 24); g_seed.bytes = s.noise(40);
    m->cleanup(); size_t n = 1 + s.len(60); Bytes got(n), last; REQUIRE(m->bytes(got.data(), (int)n) == 1, "no random bytes");
    Bytes all = delivered(); REQUIRE(all.size() >= 40, "random bytes were returned although only %zu bytes of seed were taken", all.size());
    const uint8_t* seed = all.data() + all.size() - 40; Stream st(seed, g_seed.time); Bytes want = st.take(n);
    std::vector<std::pair<const char*, Bytes>> v = {{"the seed", Bytes(seed, seed + 12)}, {"the seed", Bytes(seed + 12, seed + 24)}, {"the seed", Bytes(seed + 20, seed + 32)}, {"the seed", Bytes(seed + 28, seed + 40)}};
    if (got == want) { v.push_back({"the state", Bytes(st.st, st.st + 8)}); v.push_back({"the time block", Bytes(st.I, st.I + 8)}); }
    auto where = [&](const Bytes& im, const Bytes& x) -> long { const uint8_t* f = (const uint8_t*)memmem(im.data(), im.size(), x.data(), x.size()); return f ? long(f - im.data()) : -1; };
    Bytes was = image_of_module(); m->cleanup(); Bytes now = image_of_module(); unsigned before = 0; REQUIRE(was.size() == now.size(), "the module has moved");
    for (auto& x : v)
    {
        bool odd = std::set<uint8_t>(x.second.begin(), x.second.end()).size() >= 6; long o = where(was, x.second); before += o >= 0;
        REQUIRE(!odd || where(now, x.second) < 0, "%s of the random generator stays in memory after its cleanup", x.first);
        // nor any word of it where it was
        for (size_t i = 0; odd && o >= 0 && i + 4 <= x.second.size(); i += 4) REQUIRE(memcmp(now.data() + o + i, x.second.data() + i, 4), "a part of %s of the random generator stays in memory after its cleanup", x.first);
        checked();
    }
    label(before ? "seen before the cleanup" : "not seen before the cleanup"); note("%zu bytes taken, %u of %zu values seen before", n, before, v.size()); nontrivial();
}
