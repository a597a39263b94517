// P25: a case of any other scenario, run again and again: the memory in use afterwards must not keep growing.
#include "env.h"
#include <algorithm>
#include <string>
#include <string.h>

namespace
{
const std::vector<const Scenario*>& eligible(bool readers)
{
    static std::vector<const Scenario*> v[2];
    if (v[0].empty())
    {
        for (auto& sc : scenarios())
        {
            if (sc.flags & (FORK_PER_CASE | NO_ENGINE | THREADED | SLOW)) continue;
            if (strcmp(sc.variant, "asan") || strcmp(sc.prop, "P24") >= 0) continue;
            v[strcmp(sc.prop, "P13") >= 0].push_back(&sc);
        }
        for (auto& x : v) std::sort(x.begin(), x.end(), [](const Scenario* a, const Scenario* b) { return strcmp(a->name, b->name) < 0; });
    }
    return v[readers];
}
struct Level { int64_t allocs, bytes; };
Level level()
{
    ERR_clear_error();
    OPENSSL_thread_stop();               // what OpenSSL keeps per thread is not the operation's
    return Level{live_allocs(), live_bytes()};
}
bool run(const Scenario& sc, Src& s)     // false: the case is no evidence (it failed or was discarded)
{
    env_case_begin(sc);
    bool ok = true;
    try { sc.fn(s); }
    catch (const PropFail&) { ok = false; }
    catch (const Discard&) { ok = false; }
    env_case_end(sc);
    return ok;
}
void repeat(Src& s, const Scenario& sc)
{
    Bytes bytes; bytes.reserve(1 << 20);
    s.tee = &bytes;
    g_case.desc.reserve(8192);
    note("%s:", sc.name);
    bool ok = run(sc, s);
    s.tee = nullptr;
    if (!ok || bytes.size() > (1u << 20) - 4096) throw Discard();
    CaseInfo own = g_case; own.desc.reserve(4096);
    static Level lv[16]; int n = 0;
    auto again = [&] {
        g_case.desc.clear(); g_case.nontrivial = false;
        Src r(bytes.data(), bytes.size());
        bool k = run(sc, r);
        if (!k) { g_case = own; throw Discard(); }
        lv[n++] = level();
    };
    again(); again();
    while (n < 9 && (lv[n - 1].allocs > lv[n - 2].allocs || lv[n - 1].bytes > lv[n - 2].bytes)) again();
    g_case = own; ++g_case.checks;
    if (n < 9) return;
    bool a = true, b = true;
    for (int i = 1; i < n; ++i) { a &= lv[i].allocs > lv[i - 1].allocs; b &= lv[i].bytes > lv[i - 1].bytes; }
    REQUIRE(!a, "every repetition of a case of %s leaves %lld more OpenSSL allocations behind", sc.name, (long long)(lv[n - 1].allocs - lv[n - 2].allocs));
    REQUIRE(!b, "every repetition of a case of %s leaves %lld more bytes behind", sc.name, (long long)(lv[n - 1].bytes - lv[n - 2].bytes));
}
}
SCENARIO("P25", engine_operations, 1600, 60000, 0, "the repeated case was non-trivial by the rule of its own scenario")
{
    auto& v = eligible(false);
    repeat(s, *v[s.below(v.size())]);
}
SCENARIO("P25", keys_and_containers, 1600, 60000, 0, "the repeated case was non-trivial by the rule of its own scenario")
{
    auto& v = eligible(true);
    repeat(s, *v[s.below(v.size())]);
}
