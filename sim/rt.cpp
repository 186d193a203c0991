// Simulator runtime: scheduler, intercepted libc calls, device, allocator, event log.
// Compiled WITHOUT coverage instrumentation.
#include "sim.h"

#include <cerrno>
#include <locale.h>
#include <cstdarg>
#include <cstdlib>
#include <cstring>
#include <new>
#include <pthread.h>
#include <semaphore.h>
#include <sys/mman.h>
#include <thread>
#include <unistd.h>

extern "C" {
void* __real_malloc(size_t);
void __real_free(void*);
void* __real_calloc(size_t, size_t);
void* __real_realloc(void*, size_t);
char* __real_strdup(const char*);
locale_t __real_newlocale(int, const char*, locale_t);
locale_t __real_duplocale(locale_t);
void __real_freelocale(locale_t);
int __real_pthread_once(pthread_once_t*, void (*)(void));
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __real_pthread_rwlock_unlock(pthread_rwlock_t*);
}

namespace sim {

const char* const fault_names[F_KINDS] = {
    "short_read", "read_EIO", "read_EINTR", "read_EAGAIN", "transient_eof", "pushback_failure", "allocation_failure",
    "iterator_exception", "scanner_exception", "preemption", "locale_change", "producer_stall", "write_failure"};
const char* const probe_names[PR_COUNT] = {
    "rollback_across_buffers", "success_with_pushback", "split_inside_token", "split_inside_code_point",
    "nested_scan_on_segmented_source", "failure_after_parsed_field", "lock_contended", "preempted_while_locked",
    "multi_field_success", "eof_inside_scan", "error_inside_scan", "resumed_after_fault", "allocation_exception_seen",
    "locale_changed_mid_scan", "returned_with_producer_stalled", "unbuffered_stream", "invalid_utf8_input",
    "stream_pushback_area_used", "caller_held_lock", "wide_source"};
const char* const src_names[S_COUNT] = {"sv", "file", "deque", "list", "range", "range2", "stdin"};

static Stats s_local_stats;
Stats* g_stats = &s_local_stats;
static unsigned char s_local_cov[COV_SIZE];
unsigned char* g_cov = s_local_cov;

void fault_fired(FaultKind k) { ++g_stats->faults[k]; }
void probe(Probe p) { ++g_stats->probes[p]; }

// ---------------------------------------------------------------- event log
static uint64_t s_hash;
static bool s_trace;
static std::string s_text;
void ev_reset(bool trace)
{
    s_hash = 1469598103934665603ull;
    s_trace = trace;
    s_text.clear();
}
void ev(const char* fmt, ...)
{
    char b[2048];
    va_list ap;
    va_start(ap, fmt);
    int n = vsnprintf(b, sizeof b, fmt, ap);
    va_end(ap);
    if (n > static_cast<int>(sizeof b) - 1) n = sizeof b - 1;
    for (int i = 0; i < n; ++i) s_hash = (s_hash ^ static_cast<unsigned char>(b[i])) * 1099511628211ull;
    s_hash = (s_hash ^ 10) * 1099511628211ull;
    if (s_trace) {
        s_text.append(b, static_cast<size_t>(n));
        s_text += '\n';
    }
}
uint64_t ev_hash() { return s_hash; }
const std::string& ev_text() { return s_text; }

void violate(const std::string& cls, const std::string& detail) { throw Violation{cls, detail}; }
static bool s_def;
static Violation s_defv;
void violate_deferred(const std::string& cls, const std::string& detail)
{
    if (!s_def) {
        s_def = true;
        s_defv = {cls, detail};
    }
}
bool take_deferred(Violation& v)
{
    if (!s_def) return false;
    v = s_defv;
    s_def = false;
    return true;
}

// ---------------------------------------------------------------- steps & scheduling
uint64_t g_steps;
uint64_t g_moved;
static uint64_t s_limit = ~uint64_t{0};
static uint64_t s_next = ~uint64_t{0};   // next step needing attention
static uint64_t s_next_preempt = ~uint64_t{0};
void (*g_on_step_limit)();
static void recompute_next() { s_next = s_limit < s_next_preempt ? s_limit : s_next_preempt; }
void set_step_limit(uint64_t a)
{
    s_limit = a;
    recompute_next();
}
void step_limit_off() { set_step_limit(~uint64_t{0}); }

static uint64_t s_seq;
uint64_t now_seq() { return ++s_seq; }

struct Thr {
    sem_t sem;
    Thr() { sem_init(&sem, 0, 0); }
    ~Thr() { sem_destroy(&sem); }
    bool done = false;
    const void* blocked_on = nullptr;
};
static std::vector<Thr*> s_thr;          // index 1..N
static sem_t s_main_sem;
static bool s_active, s_deadlock;
static const SchedConfig* s_cfg;
static SchedResult* s_res;
static Rng s_rng;
static size_t s_pre_i, s_forced_i;
static thread_local int t_me;
static thread_local int t_nopreempt;
// Set while the simulator's own code runs: library templates it shares with the
// instrumented objects (comdat) are then neither counted nor preempted.
static thread_local int t_rt;
struct RtGuard {
    RtGuard() { ++t_rt; }
    ~RtGuard() { --t_rt; }
    RtGuard(const RtGuard&) = delete;
    RtGuard& operator=(const RtGuard&) = delete;
};

int cur_thread() { return t_me; }

// no thread runs longer than this without others getting a turn (code that spins
// on an atomic makes progress, as it would on a real machine)
constexpr uint64_t SLICE = 400000;
static uint64_t s_slice_end;
static void plan_next_preempt()
{
    s_next_preempt = ~uint64_t{0};
    if (s_active) {
        if (s_cfg->replay) {
            if (s_pre_i < s_cfg->sched.preempt.size()) s_next_preempt = s_cfg->sched.preempt[s_pre_i].first;
        }
        else {
            s_next_preempt = s_slice_end;
            if (s_pre_i < s_cfg->bb_points.size() && s_cfg->bb_points[s_pre_i] < s_next_preempt) s_next_preempt = s_cfg->bb_points[s_pre_i];
        }
    }
    recompute_next();
}

static bool runnable(int t) { return t >= 1 && t < static_cast<int>(s_thr.size()) && !s_thr[t]->done && !s_thr[t]->blocked_on; }

static void hash_switch(int a, int b, uintptr_t site)
{
    uint64_t& h = s_res->ihash;
    h = (h ^ (static_cast<uint64_t>(a) * 31 + static_cast<uint64_t>(b))) * 1099511628211ull;
    h = (h ^ site) * 1099511628211ull;
}

// hand the token to `to` and wait until it comes back (unless finished)
static void hand_over(int to, bool wait_back)
{
    Thr* mine = s_thr[static_cast<size_t>(t_me)];
    sem_post(to == 0 ? &s_main_sem : &s_thr[static_cast<size_t>(to)]->sem);
    if (wait_back)
        while (sem_wait(&mine->sem) != 0) {}
}

static int pick_forced()
{
    std::vector<int> c;
    for (int i = 1; i < static_cast<int>(s_thr.size()); ++i)
        if (i != t_me && runnable(i)) c.push_back(i);
    if (c.empty()) return 0;
    int t = c[0];
    if (s_cfg->replay) {
        if (s_forced_i < s_cfg->sched.forced.size()) {
            int w = s_cfg->sched.forced[s_forced_i++];
            for (int x : c)
                if (x == w) t = w;
        }
    }
    else
        t = c[s_rng.below(c.size())];
    s_res->taken.forced.push_back(t);
    return t;
}

static void preempt_to(int t, uintptr_t site)
{
    s_res->taken.preempt.emplace_back(g_steps, t);
    hash_switch(t_me, t, site);
    ++g_stats->switches;
    fault_fired(F_PREEMPT);
    ev("preempt T%d->T%d @%lu", t_me, t, static_cast<unsigned long>(g_steps));
    hand_over(t, true);
}

static __attribute__((noinline)) void slow_step(uintptr_t pc, bool sync)
{
    if (g_steps >= s_limit) {
        s_limit = ~uint64_t{0};
        recompute_next();
        if (g_on_step_limit) g_on_step_limit();
    }
    if (!s_active || t_me == 0) return;
    if (t_nopreempt) return;   // stays pending
    RtGuard rg;
    bool due = g_steps >= s_next_preempt;
    int target = 0;
    if (due) {
        if (s_cfg->replay)
            target = s_cfg->sched.preempt[s_pre_i++].second;
        else if (g_steps >= s_slice_end)
            s_slice_end = g_steps + SLICE;
        else
            ++s_pre_i;
        plan_next_preempt();
    }
    if (!s_cfg->replay && (due || (sync && s_rng.chance(s_cfg->sync_prob)))) {
        std::vector<int> c;
        for (int i = 1; i < static_cast<int>(s_thr.size()); ++i)
            if (i != t_me && runnable(i)) c.push_back(i);
        if (!c.empty()) target = c[s_rng.below(c.size())];
    }
    if (target && target != t_me && runnable(target)) preempt_to(target, pc);
}

void sync_point(const char* what)
{
    ++g_steps;
    if (s_active && t_me) {
        uintptr_t h = 5381;
        for (const char* p = what; *p; ++p) h = h * 33 + static_cast<unsigned char>(*p);
        slow_step(h, true);
    }
    else if (g_steps >= s_next)
        slow_step(0, true);
}

// block the current thread on `res`
static void block_on(const void* res)
{
    RtGuard rg;
    s_thr[t_me]->blocked_on = res;
    ++g_stats->lock_waits;
    int t = pick_forced();
    if (t == 0) {
        s_deadlock = true;
        s_res->blocked = "T" + std::to_string(t_me) + " blocked, no runnable thread";
        hand_over(0, true);   // never comes back
    }
    hash_switch(t_me, t, 77);
    ev("block T%d->T%d @%lu", t_me, t, static_cast<unsigned long>(g_steps));
    hand_over(t, true);
}
static void wake_waiters(const void* res)
{
    for (size_t i = 1; i < s_thr.size(); ++i)
        if (s_thr[i]->blocked_on == res) s_thr[i]->blocked_on = nullptr;
}

SchedResult run_threads(const std::vector<std::function<void()>>& bodies, const SchedConfig& cfg)
{
    SchedResult res;
    s_res = &res;
    s_cfg = &cfg;
    s_rng = Rng(cfg.seed);
    s_pre_i = s_forced_i = 0;
    s_deadlock = false;
    g_steps = 0;
    s_thr.assign(1, nullptr);
    for (size_t i = 0; i < bodies.size(); ++i) s_thr.push_back(new Thr);
    sem_init(&s_main_sem, 0, 0);
    std::vector<std::thread> ths;
    for (size_t i = 0; i < bodies.size(); ++i) {
        int id = static_cast<int>(i) + 1;
        ths.emplace_back([id, &bodies] {
            t_me = id;
            while (sem_wait(&s_thr[static_cast<size_t>(id)]->sem) != 0) {}
            bodies[static_cast<size_t>(id - 1)]();
            RtGuard rg;
            s_thr[id]->done = true;
            int t = pick_forced();
            if (t == 0) {
                for (size_t k = 1; k < s_thr.size(); ++k)
                    if (!s_thr[k]->done) {
                        s_deadlock = true;
                        s_res->blocked = "T" + std::to_string(k) + " blocked forever";
                    }
            }
            else
                hash_switch(id, t, 99);
            hand_over(t, false);
        });
    }
    s_active = true;
    s_slice_end = SLICE;
    plan_next_preempt();
    int first = pick_forced();
    sem_post(&s_thr[static_cast<size_t>(first)]->sem);
    while (sem_wait(&s_main_sem) != 0) {}
    s_active = false;
    plan_next_preempt();
    res.steps = g_steps;
    res.deadlock = s_deadlock;
    if (s_deadlock) {
        for (auto& t : ths) t.detach();   // the run's process is about to end
    }
    else {
        for (auto& t : ths) t.join();
        for (size_t k = 1; k < s_thr.size(); ++k) delete s_thr[k];
        s_thr.clear();
    }
    return res;
}

// ---------------------------------------------------------------- stream locks (model + real)
struct LockState {
    FILE* f = nullptr;
    int owner = -1, depth = 0;
    long min_depth = 0;
};
static LockState s_locks[64];
static LockState* lk_of(FILE* f)
{
    LockState* fr = nullptr;
    for (auto& l : s_locks) {
        if (l.f == f) return &l;
        if (!l.f && !fr) fr = &l;
    }
    if (!fr) abort();
    fr->f = f;
    fr->owner = -1;
    fr->depth = 0;
    return fr;
}
void forget_locks()
{
    for (auto& l : s_locks) l = LockState{};
}
int lock_depth(FILE* f)
{
    auto* l = lk_of(f);
    return l->owner == t_me ? l->depth : 0;
}
bool lock_held_by_other(FILE* f)
{
    auto* l = lk_of(f);
    return l->depth > 0 && l->owner != t_me;
}
void lock_mark(FILE* f)
{
    auto* l = lk_of(f);
    l->min_depth = l->owner == t_me ? l->depth : 0;
}
long lock_min_depth(FILE* f) { return lk_of(f)->min_depth; }

static void acquire(FILE* f)
{
    auto* l = lk_of(f);
    while (l->depth > 0 && l->owner != t_me) {
        probe(PR_LOCK_CONTENDED);
        if (!s_active || t_me == 0) {
            // single-threaded part of a run found the lock held by a finished thread
            violate_deferred("lock-leak", "stream lock still held by a finished thread");
            l->depth = 0;
            break;
        }
        block_on(f);
    }
    l->owner = t_me;
    ++l->depth;
}
static void release(FILE* f)
{
    auto* l = lk_of(f);
    if (l->depth <= 0 || l->owner != t_me) {
        violate_deferred("lock-misuse", "stream unlocked by a thread that does not hold its lock");
        return;
    }
    --l->depth;
    if (l->depth < l->min_depth) l->min_depth = l->depth;
    if (l->depth == 0) {
        l->owner = -1;
        if (s_active) wake_waiters(f);
    }
}

// ---------------------------------------------------------------- device
extern "C" {
static ssize_t cookie_read(void* c, char* buf, size_t n) { return static_cast<SimFile*>(c)->read(buf, n); }
static int cookie_seek(void* c, off64_t* off, int whence) { return static_cast<SimFile*>(c)->seek(off, whence); }
}
static int s_open_files;
void SimFile::open(const FileSpec& s)
{
    close();
    spec = s;
    pos = evi = 0;
    ev_used = 0;
    reads = eofs = errs = 0;
    allow_until = ~size_t{0};
    overread = false;
    cookie_io_functions_t io{};
    io.read = cookie_read;
    if (spec.bufmode & BUF_SEEKABLE) io.seek = cookie_seek;
    const int mode = spec.bufmode & ~BUF_SEEKABLE;
    f = fopencookie(this, "r", io);
    if (!f) abort();
    ++s_open_files;
    if (mode == 1) {
        vbuf.assign(static_cast<size_t>(spec.bufsize > 0 ? spec.bufsize : 1), 0);
        setvbuf(f, vbuf.data(), _IOFBF, vbuf.size());
    }
    else if (mode == 2) {
        setvbuf(f, nullptr, _IONBF, 0);
        probe(PR_UNBUFFERED);
    }
    else if (mode == 3)
        setvbuf(f, nullptr, _IOLBF, 1024);
}
void SimFile::close()
{
    if (f) {
        for (auto& l : s_locks)
            if (l.f == f) l = LockState{};
        fclose(f);
        f = nullptr;
    }
}
void (*g_read_hook)();
long SimFile::read(char* buf, size_t n)
{
    sync_point("device-read");
    if (g_read_hook) g_read_hook();
    ++reads;
    ++g_stats->reads;
    if (pos >= allow_until) {
        overread = true;
        ev("overread at %zu", pos);
        return 0;
    }
    while (evi < spec.events.size()) {
        Ev& e = spec.events[evi];
        if (e.type == 'D') {
            size_t want = static_cast<size_t>(e.n - ev_used);
            size_t rem = spec.content.size() - pos;
            size_t m = n < want ? n : want;
            if (m > rem) m = rem;
            if (m > allow_until - pos) m = allow_until - pos;   // not yet sent
            if (m == 0) {
                ++evi;
                ev_used = 0;
                continue;
            }
            memcpy(buf, spec.content.data() + pos, m);
            pos += m;
            ev_used += static_cast<int>(m);
            if (ev_used >= e.n) {
                ++evi;
                ev_used = 0;
            }
            if (m < n && pos < spec.content.size()) fault_fired(F_READ_SPLIT);
            ev("read %zu -> %zu @%zu", n, m, pos);
            return static_cast<long>(m);
        }
        if (e.type == 'E') {
            ++evi;
            ev_used = 0;
            ++eofs;
            fault_pos = pos;
            fault_fired(F_EOF_TRANSIENT);
            ev("read -> EOF @%zu", pos);
            return 0;
        }
        // 'X' one error, 'P' permanent error
        if (e.type == 'X') {
            ++evi;
            ev_used = 0;
        }
        ++errs;
        fault_pos = pos;
        fault_fired(e.n == EINTR ? F_EINTR : e.n == EAGAIN ? F_EAGAIN : F_EIO);
        errno = e.n;
        ev("read -> errno %d @%zu", e.n, pos);
        return -1;
    }
    size_t rem = spec.content.size() - pos;
    size_t m = n < rem ? n : rem;
    memcpy(buf, spec.content.data() + pos, m);
    pos += m;
    ev("read %zu -> %zu @%zu", n, m, pos);
    return static_cast<long>(m);
}
int SimFile::seek(off64_t* off, int whence)
{
    sync_point("device-seek");
    long long base = whence == SEEK_SET ? 0 : whence == SEEK_CUR ? static_cast<long long>(pos) : static_cast<long long>(spec.content.size());
    long long to = base + *off;
    if (to < 0 || to > static_cast<long long>(spec.content.size())) {
        errno = EINVAL;
        return -1;
    }
    if (static_cast<size_t>(to) != pos) ev("seek %lld", to);
    pos = static_cast<size_t>(to);
    *off = to;
    return 0;
}
std::string drain(FILE* f)
{
    std::string r;
    int c;
    while ((c = getc_unlocked(f)) != EOF) {
        r += static_cast<char>(c);
        if (r.size() > 1u << 20) break;
    }
    return r;
}

void range_tick(RangeCtl* c)
{
    if (!c) return;
    ++c->derefs;
    sync_point("range");
    if (c->throw_at >= 0 && c->derefs > c->throw_at) {
        fault_fired(F_ITER_THROW);
        c->throw_at = -1;
        c->thrown = true;
        throw SimThrow{1};
    }
}
long g_scanner_calls, g_scanner_throw_at = -1;
void scanner_tick()
{
    sync_point("scanner");
    ++g_scanner_calls;
    if (g_scanner_throw_at >= 0 && g_scanner_calls > g_scanner_throw_at) {
        g_scanner_throw_at = -1;
        fault_fired(F_SCANNER_THROW);
        throw SimThrow{2};
    }
}

// ---------------------------------------------------------------- allocation
static bool s_win;
static int s_win_thread;
static long s_allocs, s_live, s_fail_at = -1;
static bool s_fail_all, s_fired;
constexpr size_t TAB = 1u << 15;
static void* s_tab[TAB];
static bool tab_op(void* p, bool add)
{
    size_t h = (reinterpret_cast<uintptr_t>(p) >> 4) * 0x9E3779B97F4A7C15ull >> 40;
    for (size_t i = 0; i < TAB; ++i) {
        void*& e = s_tab[(h + i) % TAB];
        if (add) {
            if (!e || e == reinterpret_cast<void*>(1)) {
                e = p;
                return true;
            }
        }
        else {
            if (!e) return false;
            if (e == p) {
                e = reinterpret_cast<void*>(1);
                return true;
            }
        }
    }
    return false;
}
void alloc_window_begin(long fail_at, bool all)
{
    memset(s_tab, 0, sizeof s_tab);
    s_allocs = s_live = 0;
    s_fail_at = fail_at;
    s_fail_all = all;
    s_fired = false;
    s_win_thread = t_me;
    s_win = true;
}
AllocReport alloc_window_end()
{
    s_win = false;
    AllocReport r;
    r.allocs = s_allocs;
    r.live = s_live;
    r.fired = s_fired;
    s_fail_at = -1;
    return r;
}
static bool alloc_should_fail()
{
    if (!s_win || s_win_thread != t_me || t_rt) return false;
    long i = s_allocs++;
    if (s_fail_at >= 0 && (i == s_fail_at || (s_fail_all && i > s_fail_at))) {
        if (!s_fired) fault_fired(F_ALLOC_FAIL);
        s_fired = true;
        return true;
    }
    return false;
}
static void track(void* p)
{
    if (p && s_win && s_win_thread == t_me && !t_rt && tab_op(p, true)) ++s_live;
}
static void untrack(void* p)
{
    if (p && s_win && tab_op(p, false)) --s_live;
}
static void* do_new(size_t n, size_t al, bool nothrow)
{
    g_moved += n;
    if (alloc_should_fail()) {
        if (nothrow) return nullptr;
        throw std::bad_alloc();
    }
    void* p = al > 16 ? aligned_alloc(al, (n + al - 1) / al * al) : __real_malloc(n ? n : 1);
    if (!p) abort();
    memset(p, 0xA7, n < 4096 ? n : 4096);   // same garbage in every run
    if (s_win && s_win_thread == t_me && !t_rt && tab_op(p, true)) ++s_live;
    return p;
}
static void do_delete(void* p)
{
    if (!p) return;
    if (s_win && tab_op(p, false)) --s_live;
    __real_free(p);
}

// ---------------------------------------------------------------- pushback failure
static long s_ungetc_fail = -1;
static bool s_ungetc_failed;
void ungetc_fail_after(long n)
{
    s_ungetc_fail = n;
    s_ungetc_failed = false;
}
bool ungetc_failed() { return s_ungetc_failed; }

}  // namespace sim

using namespace sim;

extern "C" {
#ifndef __SANITIZE_ADDRESS__
// copying done for the code under test by the C and C++ libraries is work, too
void* memmove(void* d, const void* s, size_t n)
{
    g_moved += n;
    void* r = d;
    if (static_cast<char*>(d) - static_cast<const char*>(s) >= 0 && static_cast<size_t>(static_cast<char*>(d) - static_cast<const char*>(s)) < n) {
        char* dd = static_cast<char*>(d) + n;
        const char* ss = static_cast<const char*>(s) + n;
        while (n--) {
            *--dd = *--ss;
            asm volatile("" ::: "memory");
        }
        return r;
    }
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
void* memcpy(void* d, const void* s, size_t n)
{
    g_moved += n;
    void* r = d;
    asm volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory");
    return r;
}
#endif
__attribute__((used)) void __sanitizer_cov_trace_pc()
{
    uintptr_t pc = reinterpret_cast<uintptr_t>(__builtin_return_address(0));
    if (t_rt) return;
    g_cov[(pc >> 1) & (COV_SIZE - 1)] = 1;
    if (++g_steps >= s_next) slow_step(pc, false);
}

void __real_flockfile(FILE*);
void __real_funlockfile(FILE*);
int __real_ftrylockfile(FILE*);
int __real_ungetc(int, FILE*);
int __real_getc(FILE*);
int __real_fgetc(FILE*);
char* __real_fgets(char*, int, FILE*);
size_t __real_fread(void*, size_t, size_t, FILE*);
int __real___uflow(FILE*);

void __wrap_flockfile(FILE* f)
{
    sync_point("flockfile");
    acquire(f);
    __real_flockfile(f);
}
int __wrap_ftrylockfile(FILE* f)
{
    sync_point("ftrylockfile");
    if (lock_held_by_other(f)) return -1;
    acquire(f);
    __real_flockfile(f);
    return 0;
}
void __wrap_funlockfile(FILE* f)
{
    __real_funlockfile(f);
    release(f);
    sync_point("funlockfile");
}
int __wrap_ungetc(int c, FILE* f)
{
    sync_point("ungetc");
    if (s_ungetc_fail >= 0 && s_ungetc_fail-- == 0) {
        s_ungetc_failed = true;
        fault_fired(F_UNGETC_FAIL);
        ev("ungetc -> fail");
        return EOF;
    }
    acquire(f);
    int r = __real_ungetc(c, f);
    release(f);
    sync_point("ungetc-done");
    return r;
}
int __wrap_getc(FILE* f)
{
    sync_point("getc");
    acquire(f);
    int r = __real_getc(f);
    release(f);
    return r;
}
int __wrap_fgetc(FILE* f) { return __wrap_getc(f); }
char* __wrap_fgets(char* b, int n, FILE* f)
{
    sync_point("fgets");
    acquire(f);
    char* r = __real_fgets(b, n, f);
    release(f);
    return r;
}
size_t __wrap_fread(void* b, size_t s, size_t n, FILE* f)
{
    sync_point("fread");
    acquire(f);
    size_t r = __real_fread(b, s, n, f);
    release(f);
    return r;
}
int __wrap___uflow(FILE* f)
{
    sync_point("uflow");
    return __real___uflow(f);
}

int __real_feof(FILE*);
int __real_ferror(FILE*);
void __real_clearerr(FILE*);
int __wrap_feof(FILE* f)
{
    acquire(f);
    int r = __real_feof(f);
    release(f);
    return r;
}
int __wrap_ferror(FILE* f)
{
    acquire(f);
    int r = __real_ferror(f);
    release(f);
    return r;
}
void __wrap_clearerr(FILE* f)
{
    acquire(f);
    __real_clearerr(f);
    release(f);
}

int __real_pthread_mutex_lock(pthread_mutex_t*);
int __real_pthread_mutex_unlock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!s_active || t_me == 0) return __real_pthread_mutex_lock(m);
    sync_point("mutex");
    while (pthread_mutex_trylock(m) != 0) block_on(m);
    return 0;
}
int __wrap_pthread_mutex_unlock(pthread_mutex_t* m)
{
    int r = __real_pthread_mutex_unlock(m);
    if (s_active && t_me) {
        wake_waiters(m);
        sync_point("mutex-unlock");
    }
    return r;
}
// direct use of the C allocator, locale objects, once and rwlocks by the code under test
void* __wrap_malloc(size_t n)
{
    if (alloc_should_fail()) return nullptr;
    void* p = __real_malloc(n);
    track(p);
    return p;
}
void* __wrap_calloc(size_t a, size_t b)
{
    if (alloc_should_fail()) return nullptr;
    void* p = __real_calloc(a, b);
    track(p);
    return p;
}
void* __wrap_realloc(void* q, size_t n)
{
    if (alloc_should_fail()) return nullptr;
    untrack(q);
    void* p = __real_realloc(q, n);
    track(p);
    return p;
}
char* __wrap_strdup(const char* s)
{
    if (alloc_should_fail()) return nullptr;
    char* p = __real_strdup(s);
    track(p);
    return p;
}
void __wrap_free(void* p)
{
    untrack(p);
    __real_free(p);
}
locale_t __wrap_newlocale(int m, const char* n, locale_t b)
{
    untrack(b);
    locale_t l = __real_newlocale(m, n, b);
    track(l);
    return l;
}
locale_t __wrap_duplocale(locale_t b)
{
    locale_t l = __real_duplocale(b);
    track(l);
    return l;
}
void __wrap_freelocale(locale_t l)
{
    untrack(l);
    __real_freelocale(l);
}
int __wrap_pthread_once(pthread_once_t* o, void (*f)(void))
{
    struct G {
        G() { ++t_nopreempt; }
        ~G() { --t_nopreempt; }
    } g;
    return __real_pthread_once(o, f);
}
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (!s_active || t_me == 0) return __real_pthread_rwlock_rdlock(m);
    sync_point("rdlock");
    while (pthread_rwlock_tryrdlock(m) != 0) block_on(m);
    return 0;
}
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (!s_active || t_me == 0) return __real_pthread_rwlock_wrlock(m);
    sync_point("wrlock");
    while (pthread_rwlock_trywrlock(m) != 0) block_on(m);
    return 0;
}
int __wrap_pthread_rwlock_unlock(pthread_rwlock_t* m)
{
    int r = __real_pthread_rwlock_unlock(m);
    if (s_active && t_me) {
        wake_waiters(m);
        sync_point("rwlock-unlock");
    }
    return r;
}
int __real___cxa_guard_acquire(void*);
void __real___cxa_guard_release(void*);
void __real___cxa_guard_abort(void*);
int __wrap___cxa_guard_acquire(void* g)
{
    // Initialisation of function-local statics is atomic in the simulation.
    ++t_nopreempt;
    int r = __real___cxa_guard_acquire(g);
    if (!r) --t_nopreempt;
    return r;
}
void __wrap___cxa_guard_release(void* g)
{
    __real___cxa_guard_release(g);
    --t_nopreempt;
}
void __wrap___cxa_guard_abort(void* g)
{
    __real___cxa_guard_abort(g);
    --t_nopreempt;
}
}

void* operator new(size_t n) { return do_new(n, 0, false); }
void* operator new[](size_t n) { return do_new(n, 0, false); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return do_new(n, 0, true); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return do_new(n, 0, true); }
void* operator new(size_t n, std::align_val_t a) { return do_new(n, static_cast<size_t>(a), false); }
void* operator new[](size_t n, std::align_val_t a) { return do_new(n, static_cast<size_t>(a), false); }
void operator delete(void* p) noexcept { do_delete(p); }
void operator delete[](void* p) noexcept { do_delete(p); }
void operator delete(void* p, size_t) noexcept { do_delete(p); }
void operator delete[](void* p, size_t) noexcept { do_delete(p); }
void operator delete(void* p, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void* p, std::align_val_t) noexcept { do_delete(p); }
void operator delete(void* p, size_t, std::align_val_t) noexcept { do_delete(p); }
void operator delete[](void* p, size_t, std::align_val_t) noexcept { do_delete(p); }
void operator delete(void* p, const std::nothrow_t&) noexcept { do_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { do_delete(p); }
