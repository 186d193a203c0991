// Command line of the simulator: seeded search, replay, minimisation.
#include "plan.h"

#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <ctime>
#include <fstream>
#include <iostream>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace sim;


// ------------------------------------------------------------------ shared memory
constexpr size_t SLOT_TEXT = 1u << 20;
struct Slot {
    int status;              // 0 running, 1 held, 2 violation
    int cur_case;
    uint64_t hash;
    char cls[64];
    char detail[8192];
    size_t plan_len;
    char plan[SLOT_TEXT];
};
constexpr size_t SETSZ = size_t{1} << 24;
struct Shared {
    Stats stats;
    std::atomic<uint64_t> next_run, determinism_checks, determinism_failures, distinct_cases, distinct_inter, total_steps, nontrivial, capped;
    std::atomic<int> stop, violations, errors;
    std::atomic<uint64_t> sigs[256];
    std::atomic<uint64_t> cases_set[SETSZ];
    std::atomic<uint64_t> inter_set[SETSZ];
    unsigned char cov[COV_SIZE];
};
static Shared* sh;
static bool set_insert(std::atomic<uint64_t>* t, uint64_t v, size_t n = SETSZ)
{
    if (!v) v = 1;
    for (size_t i = 0, h = v * 0x9E3779B97F4A7C15ull >> 20; i < 64; ++i, ++h) {
        uint64_t cur = t[h % n].load(std::memory_order_relaxed);
        if (cur == v) return false;
        if (cur == 0) {
            uint64_t z = 0;
            if (t[h % n].compare_exchange_strong(z, v)) return true;
            if (z == v) return false;
        }
    }
    return false;
}
static double now()
{
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) * 1e-9;
}
static uint64_t mix(uint64_t a, uint64_t b)
{
    Rng r(a ^ (b * 0xff51afd7ed558ccdull));
    return r.next();
}

// ------------------------------------------------------------------ one run in a child process
struct RunResult {
    bool violated = false;
    std::string cls, detail, plan, trace;
    int cur_case = 0;
    uint64_t hash = 0;
};
static Slot* my_slot;
static Plan* cur_plan;
static bool g_trace_out;
static uint64_t s_run_hash;

static void put_str(char* d, size_t n, const std::string& s)
{
    size_t k = std::min(n - 1, s.size());
    memcpy(d, s.data(), k);
    d[k] = 0;
}
static void publish(const std::string& cls, const std::string& detail)
{
    my_slot->hash = s_run_hash;
    put_str(my_slot->cls, sizeof my_slot->cls, cls);
    put_str(my_slot->detail, sizeof my_slot->detail, detail);
    std::string p = cur_plan->serialise();
    my_slot->plan_len = std::min(p.size(), SLOT_TEXT);
    memcpy(my_slot->plan, p.data(), my_slot->plan_len);
    my_slot->status = 2;
}
static void step_limit_hit()
{
    auto& c = cur_plan->cases[static_cast<size_t>(my_slot->cur_case)];
    std::string d = "the simulated execution did not finish within its step bound";
    for (auto& s : c.steps) d += " [" + s.verb + " " + s.arg + "]";
    for (auto& s : c.srcs) d += " " + quote(s.file.content);
    s_run_hash = mix(s_run_hash, ev_hash());
    publish("no-progress", d);
    if (g_trace_out) fputs(ev_text().c_str(), stdout), fflush(stdout);
    _exit(0);
}
static void child_main(Plan& plan, bool count)
{
    cur_plan = &plan;
    const PropDef* pd = find_prop(plan.prop);
    g_on_step_limit = step_limit_hit;
    // memory: a runaway run must not take the machine down
    Stats local{};
    Stats* global = g_stats;
    g_stats = &local;
    s_run_hash = 1;
    bool bad = false;
    std::string cls, detail;
    for (auto& c : plan.cases)
        for (auto& st : c.steps) intern_dyn(st.arg);
    for (size_t i = 0; i < plan.cases.size() && !bad; ++i) {
        my_slot->cur_case = static_cast<int>(i);
        uint64_t f0 = 0;
        for (auto x : local.faults) f0 += x;
        g_steps = 0;
        ev_reset(g_trace_out);
        try {
            pd->exec(plan.cases[i]);
        }
        catch (const Violation& v) {
            bad = true;
            cls = v.cls;
            detail = v.detail;
        }
        step_limit_off();
        ++local.cases;
        local.steps += g_steps;
        uint64_t f1 = 0, h = ev_hash();
        for (auto x : local.faults) f1 += x;
        s_run_hash = mix(s_run_hash, h);
        if (g_trace_out) fputs(ev_text().c_str(), stdout), fflush(stdout);
        if (count && f1 != f0 && sh) {
            ++sh->nontrivial;
            if (set_insert(sh->cases_set, h)) ++sh->distinct_cases;
            if (plan.cases[i].has_sched) {
                uint64_t ih = 7;
                for (auto& p : plan.cases[i].sched.preempt) ih = mix(ih, p.first * 64 + static_cast<uint64_t>(p.second));
                for (int f : plan.cases[i].sched.forced) ih = mix(ih, static_cast<uint64_t>(f));
                ih = mix(ih, h);
                if (set_insert(sh->inter_set, ih)) ++sh->distinct_inter;
            }
        }
    }
    ++local.runs;
    if (count && global != &local) {
        auto* a = reinterpret_cast<uint64_t*>(&local);
        auto* b = reinterpret_cast<uint64_t*>(global);
        for (size_t i = 0; i < sizeof(Stats) / 8; ++i) __atomic_fetch_add(&b[i], a[i], __ATOMIC_RELAXED);
    }
    if (bad)
        publish(cls, detail);
    else {
        my_slot->hash = s_run_hash;
        my_slot->status = 1;
    }
    _exit(0);
}
static RunResult run_plan(const Plan& plan, bool count = false)
{
    my_slot->status = 0;
    my_slot->cur_case = 0;
    my_slot->hash = 0;
    my_slot->plan_len = 0;
    pid_t p = fork();
    if (p < 0) {
        perror("fork");
        exit(2);
    }
    if (p == 0) {
        struct itimerval tv {};
        tv.it_value.tv_sec = 15;
        setitimer(ITIMER_REAL, &tv, nullptr);
        signal(SIGALRM, SIG_DFL);
        if (!g_trace_out) (void)!freopen("/dev/null", "w", stderr);
        Plan copy = plan;
        child_main(copy, count);
        _exit(3);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    RunResult r;
    r.cur_case = my_slot->cur_case;
    r.hash = my_slot->hash;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0 && my_slot->status == 1) return r;
    r.violated = true;
    if (my_slot->status == 2) {
        r.cls = my_slot->cls;
        r.detail = my_slot->detail;
        r.plan.assign(my_slot->plan, my_slot->plan_len);
        return r;
    }
    r.plan = plan.serialise();
    auto& c = plan.cases[static_cast<size_t>(r.cur_case)];
    std::string d;
    for (auto& s : c.steps) d += " [" + s.verb + " " + s.arg + "]";
    for (auto& s : c.srcs) d += std::string(" ") + src_names[s.kind] + " " + quote(s.file.content);
    if (WIFSIGNALED(st)) {
        int sig = WTERMSIG(st);
        r.cls = sig == SIGALRM ? "hang" : "crash";
        r.detail = (sig == SIGALRM ? std::string("the run did not end (real blocking call)") : std::string("killed by signal ") + strsignal(sig)) + " in" + d;
    }
    else {
        r.cls = "crash";
        r.detail = "process exited with status " + std::to_string(WEXITSTATUS(st)) + " in" + d;
    }
    r.hash = 0;
    return r;
}

// ------------------------------------------------------------------ minimisation
struct Minimiser {
    std::string cls;
    int budget = 4000;
    double deadline;
    Plan best;
    RunResult res;
    bool attempt(const Plan& p)
    {
        if (budget-- <= 0 || now() > deadline) return false;
        RunResult r = run_plan(p);
        if (!r.violated || r.cls != cls) return false;
        Plan np;
        std::string err;
        if (!r.plan.empty() && Plan::parse(r.plan, np, err)) best = np;
        else best = p;
        res = r;
        return true;
    }
    bool pass()
    {
        bool any = false;
        auto C = [&]() -> Case& { return best.cases[0]; };
        auto try_edit = [&](auto edit) {
            Plan p = best;
            if (!edit(p.cases[0])) return false;
            if (attempt(p)) {
                any = true;
                return true;
            }
            return false;
        };
        for (size_t i = C().steps.size(); i-- > 0;)
            try_edit([&](Case& c) {
                if (i >= c.steps.size() || c.steps.size() < 2) return false;
                c.steps.erase(c.steps.begin() + static_cast<long>(i));
                return true;
            });
        // schedule
        for (size_t chunk = 32; chunk >= 1; chunk /= 2)
            for (size_t i = 0; i < C().sched.preempt.size();) {
                if (!try_edit([&](Case& c) {
                        if (i >= c.sched.preempt.size()) return false;
                        auto e = std::min(i + chunk, c.sched.preempt.size());
                        c.sched.preempt.erase(c.sched.preempt.begin() + static_cast<long>(i), c.sched.preempt.begin() + static_cast<long>(e));
                        return true;
                    }))
                    i += chunk;
            }
        for (size_t k = 0; k < C().srcs.size(); ++k) {
            try_edit([&](Case& c) {
                if (c.srcs[k].file.bufmode == 0) return false;
                c.srcs[k].file.bufmode = 0;
                c.srcs[k].file.bufsize = 0;
                return true;
            });
            for (size_t chunk = std::max<size_t>(16, k < C().srcs.size() ? C().srcs[k].file.events.size() / 2 : 0); chunk >= 1; chunk /= 2)
                for (size_t i = 0; k < C().srcs.size() && i < C().srcs[k].file.events.size();) {
                    if (!try_edit([&](Case& c) {
                            auto& e = c.srcs[k].file.events;
                            auto to = std::min(i + chunk, e.size());
                            e.erase(e.begin() + static_cast<long>(i), e.begin() + static_cast<long>(to));
                            return true;
                        }))
                        i += chunk;
                }
            // merge neighbouring deliveries
            for (size_t i = 0; k < C().srcs.size() && i + 1 < C().srcs[k].file.events.size();) {
                if (!try_edit([&](Case& c) {
                        auto& e = c.srcs[k].file.events;
                        if (e[i].type != 'D' || e[i + 1].type != 'D') return false;
                        e[i].n += e[i + 1].n;
                        e.erase(e.begin() + static_cast<long>(i) + 1);
                        return true;
                    }))
                    ++i;
            }
            for (size_t chunk = std::max<size_t>(64, k < C().srcs.size() ? C().srcs[k].file.content.size() / 2 : 0); chunk >= 1; chunk /= 2)
                for (size_t i = 0; k < C().srcs.size() && i < C().srcs[k].file.content.size();) {
                    if (try_edit([&](Case& c) {
                            c.srcs[k].file.content.erase(i, chunk);
                            return true;
                        }))
                        continue;
                    // also shrink the delivery that carried those bytes
                    if (try_edit([&](Case& c) {
                            auto& f = c.srcs[k].file;
                            size_t n = std::min(chunk, f.content.size() - i), at = 0;
                            for (auto& e : f.events) {
                                if (e.type != 'D') continue;
                                if (i < at + static_cast<size_t>(e.n)) {
                                    if (static_cast<size_t>(e.n) <= n) return false;
                                    e.n -= static_cast<int>(n);
                                    f.content.erase(i, n);
                                    return true;
                                }
                                at += static_cast<size_t>(e.n);
                            }
                            return false;
                        }))
                        continue;
                    i += chunk;
                }
        }
        std::vector<std::string> keys;
        for (auto& p : C().params) keys.push_back(p.first);
        for (auto& k : keys)
            try_edit([&](Case& c) { return c.params.erase(k) > 0; });
        for (auto& k : keys) {
            if (k != "allocfail" && k != "scanthrow" && k != "ungetcfail" && k != "depth") continue;
            while (try_edit([&](Case& c) {
                long v = c.par(k, 0);
                if (v <= 0) return false;
                c.set(k, v - 1);
                return true;
            })) {}
        }
        return any;
    }
    void run()
    {
        if (best.cases.size() > 1) {
            Plan p = best;
            p.cases = {best.cases[static_cast<size_t>(res.cur_case)]};
            if (!attempt(p)) return;   // state carried across cases: keep as is
        }
        for (int i = 0; i < 6 && pass(); ++i) {}
    }
};

static std::string signature(const Plan& p, const RunResult& r)
{
    std::string s = r.cls;
    for (auto& c : p.cases) {
        for (auto& st : c.steps) s += "/" + st.verb + ":" + st.arg;
        if (c.srcs.size() == 1) s += std::string("@") + src_names[c.srcs[0].kind];
        break;
    }
    return s;
}
static uint64_t strhash(const std::string& s)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    return h;
}

// ------------------------------------------------------------------ search
struct Options {
    std::string prop, outdir = ".";
    uint64_t seed = 1, runs = 100;
    int jobs = 8;
    double cap = 600;
    int maxviol = 1;
};
static Plan make_plan(const PropDef& pd, uint64_t seed, uint64_t i)
{
    Plan p;
    p.prop = pd.id;
    p.seed = mix(mix(seed, strhash(pd.id)), i);
    Rng r(p.seed);
    for (int k = 0; k < pd.cases_per_run; ++k) {
        Case c;
        pd.gen(r, c);
        if (p.prop != "P14" && r.chance(0.97))
            for (auto& s : c.srcs) s.file.content = make_valid_utf8(s.file.content);
        p.cases.push_back(std::move(c));
    }
    return p;
}
static bool save_replay(const std::string& path, const Plan& p, const RunResult& r)
{
    std::ofstream o(path);
    o << "# scnlib simulation replay\n# class " << r.cls << "\n# hash " << std::hex << r.hash << std::dec << "\n";
    std::istringstream d(r.detail);
    std::string l;
    while (std::getline(d, l)) o << "# " << l << "\n";
    o << p.serialise();
    return static_cast<bool>(o);
}
static void handle_violation(const Options& o, Plan plan, RunResult r, uint64_t index)
{
    // gate: the same plan must give the same violation again, event for event
    for (int k = 0; k < 2; ++k) {
        RunResult again = run_plan(plan);
        if (!again.violated || again.cls != r.cls || again.cur_case != r.cur_case) {
            fprintf(stderr, "NONDETERMINISTIC property=%s run=%lu first=%s again=%s\n", o.prop.c_str(), static_cast<unsigned long>(index), r.cls.c_str(), again.violated ? again.cls.c_str() : "held");
            ++sh->errors;
            return;
        }
    }
    Minimiser m;
    m.cls = r.cls;
    m.best = plan;
    m.res = r;
    m.deadline = now() + 60;
    Plan withsched;
    std::string err;
    if (!r.plan.empty() && Plan::parse(r.plan, withsched, err)) {
        RunResult c = run_plan(withsched);
        if (c.violated && c.cls == r.cls) m.best = withsched, m.res = c;
    }
    m.run();
    RunResult a = run_plan(m.best), b = run_plan(m.best);
    if (!a.violated || a.cls != r.cls || !b.violated || b.cls != r.cls || a.hash != b.hash) {
        fprintf(stderr, "NONDETERMINISTIC property=%s run=%lu minimised plan differs: %s/%s\n", o.prop.c_str(), static_cast<unsigned long>(index), a.cls.c_str(), b.cls.c_str());
        ++sh->errors;
        return;
    }
    std::string sig = signature(m.best, a);
    if (!set_insert(sh->sigs, strhash(sig), 256)) return;
    int n = sh->violations.fetch_add(1);
    std::string path = o.outdir + "/" + o.prop + "-" + std::to_string(o.seed) + "-" + std::to_string(index) + ".replay";
    save_replay(path, m.best, a);
    std::ostringstream line;
    line << "FOUND property=" << o.prop << " replay=" << path << " class=" << a.cls << " sig=" << sig << " detail=" << a.detail << "\n";
    fputs(line.str().c_str(), stdout);
    fflush(stdout);
    if (n + 1 >= o.maxviol) sh->stop = 1;
}
static void worker(const Options& o, const PropDef& pd, double t0)
{
    my_slot = static_cast<Slot*>(mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    for (;;) {
        if (sh->stop.load()) break;
        uint64_t i = sh->next_run.fetch_add(1);
        if (i >= o.runs) break;
        if (now() - t0 > o.cap) {
            ++sh->capped;
            break;
        }
        Plan p = make_plan(pd, o.seed, i);
        RunResult r = run_plan(p, true);
        if (r.violated) {
            handle_violation(o, p, r, i);
            continue;
        }
        if (i % 50 == 7) {
            RunResult b = run_plan(p, true), c = run_plan(p, true);
            ++sh->determinism_checks;
            if (b.violated || c.violated || b.hash != r.hash || c.hash != r.hash) {
                ++sh->determinism_failures;
                ++sh->errors;
                fprintf(stderr, "NONDETERMINISTIC property=%s run=%lu hash %lx %lx %lx\n", o.prop.c_str(), static_cast<unsigned long>(i), r.hash, b.hash, c.hash);
            }
        }
    }
    _exit(0);
}
static int do_search(const Options& o)
{
    const PropDef* pd = find_prop(o.prop);
    if (!pd) return fprintf(stderr, "no property %s\n", o.prop.c_str()), 2;
    sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    g_stats = &sh->stats;
    g_cov = sh->cov;
    double t0 = now();
    std::vector<pid_t> ws;
    for (int i = 0; i < o.jobs; ++i) {
        pid_t p = fork();
        if (p == 0) worker(o, *pd, t0);
        ws.push_back(p);
    }
    bool bad = false;
    for (pid_t p : ws) {
        int st = 0;
        waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) bad = true;
    }
    double wall = now() - t0;
    size_t blocks = 0;
    for (auto c : sh->cov) blocks += c;
    std::ostringstream j;
    auto& s = sh->stats;
    j << "STATS {\"runs\":" << s.runs << ",\"cases\":" << s.cases << ",\"steps\":" << s.steps << ",\"reads\":" << s.reads << ",\"scans\":" << s.scans
      << ",\"switches\":" << s.switches << ",\"lock_waits\":" << s.lock_waits << ",\"wall\":" << wall << ",\"blocks\":" << blocks
      << ",\"nontrivial_cases\":" << sh->nontrivial << ",\"distinct_cases\":" << sh->distinct_cases << ",\"distinct_interleavings\":" << sh->distinct_inter
      << ",\"determinism_checks\":" << sh->determinism_checks << ",\"determinism_failures\":" << sh->determinism_failures << ",\"capped\":" << (sh->capped ? "true" : "false") << ",\"faults\":{";
    for (int i = 0; i < F_KINDS; ++i) j << (i ? "," : "") << "\"" << fault_names[i] << "\":" << s.faults[i];
    j << "},\"probes\":{";
    for (int i = 0; i < PR_COUNT; ++i) j << (i ? "," : "") << "\"" << probe_names[i] << "\":" << s.probes[i];
    j << "}}\n";
    fputs(j.str().c_str(), stdout);
    fflush(stdout);
    if (sh->violations) return 1;
    if (bad || sh->errors) return 2;
    return 0;
}
static int do_replay(const std::string& path, bool minimise)
{
    std::ifstream in(path);
    std::stringstream ss;
    ss << in.rdbuf();
    Plan p;
    std::string err, want_cls, want_hash;
    std::istringstream ls(ss.str());
    std::string line;
    while (std::getline(ls, line)) {
        if (line.rfind("# class ", 0) == 0) want_cls = line.substr(8);
        if (line.rfind("# hash ", 0) == 0) want_hash = line.substr(7);
    }
    if (!in || !Plan::parse(ss.str(), p, err) || !find_prop(p.prop)) return fprintf(stderr, "cannot read %s: %s\n", path.c_str(), err.c_str()), 2;
    my_slot = static_cast<Slot*>(mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if (minimise) {
        RunResult r = run_plan(p);
        if (!r.violated) return 0;
        Minimiser m;
        m.cls = r.cls;
        m.best = p;
        m.res = r;
        m.deadline = now() + 60;
        m.run();
        save_replay(path + ".min", m.best, m.res);
    }
    g_trace_out = true;
    RunResult r = run_plan(p);
    char hs[32];
    snprintf(hs, sizeof hs, "%lx", static_cast<unsigned long>(r.hash));
    if (!r.violated) {
        printf("HELD property=%s hash=%s\n", p.prop.c_str(), hs);
        return want_cls.empty() ? 0 : 3;
    }
    printf("REPRODUCED property=%s class=%s hash=%s detail=%s\n", p.prop.c_str(), r.cls.c_str(), hs, r.detail.c_str());
    if (!want_cls.empty() && (want_cls != r.cls || want_hash != hs)) {
        printf("DIFFERS from recorded class=%s hash=%s\n", want_cls.c_str(), want_hash.c_str());
        return 3;
    }
    return 1;
}
int main(int argc, char** argv)
{
    // fixed addresses, so that even misbehaving code misbehaves the same way each time
    if (!getenv("SIM_NOASLR")) {
        setenv("SIM_NOASLR", "1", 1);
        if (personality(ADDR_NO_RANDOMIZE) != -1) execv("/proc/self/exe", argv);
    }
    setenv("TZ", "UTC", 1);
    struct rlimit core {0, 0};
    setrlimit(RLIMIT_CORE, &core);
    if (argc < 2) return 2;
    std::string cmd = argv[1];
    ops();
    preload_locales();
    if (cmd == "replay" && argc > 2) return do_replay(argv[2], false);
    if (cmd == "minimise" && argc > 2) return do_replay(argv[2], true);
    if (cmd == "ops") {
        for (auto& o : ops()) printf("%s\t%s\t%s\t%u\n", o.id.c_str(), o.fmt.c_str(), o.tmpl.c_str(), o.flags);
        return 0;
    }
    if (cmd == "rates") {
        op_rates();
        return 0;
    }
    if (cmd == "show" && argc > 4) {
        const PropDef* pd = find_prop(argv[2]);
        fputs(make_plan(*pd, strtoull(argv[3], nullptr, 10), strtoull(argv[4], nullptr, 10)).serialise().c_str(), stdout);
        return 0;
    }
    if (cmd == "search") {
        Options o;
        for (int i = 2; i + 1 < argc; i += 2) {
            std::string k = argv[i], v = argv[i + 1];
            if (k == "--prop") o.prop = v;
            else if (k == "--seed") o.seed = strtoull(v.c_str(), nullptr, 10);
            else if (k == "--runs") o.runs = strtoull(v.c_str(), nullptr, 10);
            else if (k == "--jobs") o.jobs = atoi(v.c_str());
            else if (k == "--cap") o.cap = atof(v.c_str());
            else if (k == "--out") o.outdir = v;
            else if (k == "--max") o.maxviol = atoi(v.c_str());
        }
        return do_search(o);
    }
    return 2;
}
