// Deterministic simulation harness for scnlib: shared declarations.
#pragma once
#include <charconv>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <deque>
#include <functional>
#include <iterator>
#include <list>
#include <map>
#include <string>
#include <string_view>
#include <vector>
#include <sys/types.h>

namespace sim {

// ---------------------------------------------------------------- PRNG
struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0xD1B54A32D192ED03ull) { next(); next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + static_cast<int>(below(static_cast<uint64_t>(b - a + 1))); }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    template <class T>
    const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

// ---------------------------------------------------------------- Outcome of one scan
struct Outcome {
    bool ok = false;
    int code = 0;           // scan_error code when !ok; -1: exception
    std::string vals;       // printable rendering of all values when ok
    long consumed = -1;     // characters consumed (ranges); filled in later for FILE*
    std::string exc;        // exception text when code == -1
    bool operator==(const Outcome& o) const
    {
        if (ok != o.ok) return false;
        return ok ? (vals == o.vals && consumed == o.consumed) : code == o.code;
    }
    std::string str() const
    {
        char b[64];
        if (ok) {
            std::snprintf(b, sizeof b, "ok(n=%ld) ", consumed);
            return b + vals;
        }
        std::snprintf(b, sizeof b, "error(%d)", code);
        return b + (exc.empty() ? std::string{} : " " + exc);
    }
};

// ---------------------------------------------------------------- runtime (rt.cpp)
struct SimThrow {            // thrown by simulated user iterators / scanners
    int where;
};

enum FaultKind {
    F_READ_SPLIT, F_EIO, F_EINTR, F_EAGAIN, F_EOF_TRANSIENT, F_UNGETC_FAIL, F_ALLOC_FAIL,
    F_ITER_THROW, F_SCANNER_THROW, F_PREEMPT, F_LOCALE_CHANGE, F_STALL, F_WRITE_FAIL, F_KINDS
};
extern const char* const fault_names[F_KINDS];

struct Stats {               // lives in shared memory, accumulated over runs
    uint64_t runs, cases, steps, reads, scans, switches, lock_waits, faults[F_KINDS], probes[64];
};
extern Stats* g_stats;
extern unsigned char* g_cov;  // coverage bitmap (shared)
constexpr size_t COV_SIZE = 1u << 18;

void fault_fired(FaultKind k);
enum Probe {
    PR_ROLLBACK_MULTI, PR_SUCCESS_PUTBACK, PR_SPLIT_IN_TOKEN, PR_SPLIT_IN_CODEPOINT, PR_NESTED_NONCONTIG,
    PR_FAIL_AFTER_FIELD, PR_LOCK_CONTENDED, PR_PREEMPT_IN_LOCK, PR_OK_MULTI, PR_EOF_IN_SCAN, PR_ERR_IN_SCAN,
    PR_RESUMED_AFTER_FAULT, PR_ALLOC_THROWN, PR_LOCALE_MID_SCAN, PR_STALLED_OK, PR_UNBUFFERED, PR_INVALID_UTF8,
    PR_PUSHBACK_AREA, PR_CALLER_LOCKED, PR_WIDE, PR_COUNT
};
extern const char* const probe_names[PR_COUNT];
void probe(Probe p);

// event log: a running hash, plus text when tracing
void ev(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void ev_reset(bool trace);
uint64_t ev_hash();
const std::string& ev_text();

// violation raised from anywhere (aborts the current run)
struct Violation {
    std::string cls, detail;
};
[[noreturn]] void violate(const std::string& cls, const std::string& detail);
// usable from simulated threads / callbacks through C frames: records, does not throw
void violate_deferred(const std::string& cls, const std::string& detail);
bool take_deferred(Violation& v);

// work accounting: basic blocks executed by instrumented code
extern uint64_t g_steps;
extern uint64_t g_moved;   // bytes allocated with operator new or moved by memcpy and memmove
void set_step_limit(uint64_t absolute);   // exceeded -> violation "no-progress", process exits
void step_limit_off();
extern void (*g_on_step_limit)();

// allocation faults and accounting
void alloc_window_begin(long fail_at, bool fail_all_after);  // fail_at < 0: never
struct AllocReport {
    long allocs = 0, live = 0;
    bool fired = false;
};
AllocReport alloc_window_end();

// pushback faults
void ungetc_fail_after(long n);           // < 0: never
bool ungetc_failed();

// ---------------------------------------------------------------- simulated stream
struct Ev {                  // one result of the device
    char type;               // 'D' deliver up to n bytes, 'E' end of file, 'X' error n
    int n;
};
constexpr int BUF_SEEKABLE = 8;   // the device supports lseek (a regular file, not a pipe)
struct FileSpec {
    std::string content;
    std::vector<Ev> events;  // content left after the last event is delivered freely
    int bufmode = 0;         // 0 default, 1 full buffering of size bufsize, 2 unbuffered, 3 line; | BUF_SEEKABLE
    int bufsize = 0;
    bool stall_is_violation = false;  // P13: reading while `stalled` is a violation
};
struct SimFile {
    FileSpec spec;
    FILE* f = nullptr;
    size_t pos = 0;          // bytes handed to stdio
    size_t evi = 0;
    int ev_used = 0;
    long reads = 0;
    long eofs = 0, errs = 0; // fault results handed out
    size_t fault_pos = 0;    // pos at the most recent EOF/error result
    size_t allow_until = ~size_t{0};   // P13: reads after pos reaches this are violations
    bool overread = false;
    bool exhausted_eof = false;
    std::vector<char> vbuf;
    SimFile() = default;
    SimFile(const SimFile&) = delete;
    SimFile& operator=(const SimFile&) = delete;
    ~SimFile() { close(); }
    void open(const FileSpec& s);
    void close();
    long read(char* buf, size_t n);
    int seek(off64_t* off, int whence);
};
extern void (*g_read_hook)();  // called on every device read
std::string drain(FILE* f);  // rest of the stream through C stdio
void forget_locks();

// independent of the C locale
inline std::string show_float(long double v)
{
    char b[64];
    auto r = std::to_chars(b, b + sizeof b, v, std::chars_format::hex);
    return std::string(b, r.ptr);
}

// ---------------------------------------------------------------- simulated forward range
// Single shared control block; iterators call back on every dereference/increment.
struct RangeCtl {
    long derefs = 0, incs = 0;
    long throw_at = -1;      // throw SimThrow at the n-th dereference
    bool oob = false;
    bool thrown = false;
};
void range_tick(RangeCtl* c);

template <class C>
struct SimRange {
    struct sentinel {
        const C* e;
    };
    struct iterator {
        using value_type = C;
        using reference = C;
        using pointer = const C*;
        using difference_type = std::ptrdiff_t;
        using iterator_category = std::forward_iterator_tag;
        const C* p = nullptr;
        const C* e = nullptr;
        RangeCtl* c = nullptr;
        C operator*() const
        {
            if (p == e) {
                if (c) c->oob = true;
                return C{};
            }
            range_tick(c);
            return *p;
        }
        iterator& operator++()
        {
            if (p == e) {
                if (c) c->oob = true;
                return *this;
            }
            if (c) ++c->incs;
            ++p;
            return *this;
        }
        iterator operator++(int)
        {
            auto t = *this;
            ++*this;
            return t;
        }
        friend bool operator==(const iterator& a, const iterator& b) { return a.p == b.p; }
        friend bool operator!=(const iterator& a, const iterator& b) { return a.p != b.p; }
        friend bool operator==(const iterator& a, const sentinel& b) { return a.p == b.e; }
        friend bool operator!=(const iterator& a, const sentinel& b) { return a.p != b.e; }
        friend bool operator==(const sentinel& b, const iterator& a) { return a.p == b.e; }
        friend bool operator!=(const sentinel& b, const iterator& a) { return a.p != b.e; }
    };
    const C* b = nullptr;
    const C* e_ = nullptr;
    RangeCtl* c = nullptr;
    iterator begin() const { return {b, e_, c}; }
    sentinel end() const { return {e_}; }
};
// common-range flavour (begin and end of one type)
template <class C>
struct SimRange2 {
    using iterator = typename SimRange<C>::iterator;
    const C* b = nullptr;
    const C* e_ = nullptr;
    RangeCtl* c = nullptr;
    iterator begin() const { return {b, e_, c}; }
    iterator end() const { return {e_, e_, c}; }
};

// ---------------------------------------------------------------- operations (ops_*.cpp)
enum Src { S_SV, S_FILE, S_DEQUE, S_LIST, S_RANGE, S_RANGE2, S_STDIN, S_COUNT };
extern const char* const src_names[S_COUNT];

struct SrcArg {              // exactly one is set, according to the Src
    std::string_view sv;
    FILE* f = nullptr;
    const std::deque<char>* dq = nullptr;
    const std::list<char>* ls = nullptr;
    const SimRange<char>* rg = nullptr;
    const SimRange2<char>* rg2 = nullptr;
};
struct WSrcArg {
    std::wstring_view sv;
    const std::deque<wchar_t>* dq = nullptr;
    const std::list<wchar_t>* ls = nullptr;
    const SimRange<wchar_t>* rg = nullptr;
    const SimRange2<wchar_t>* rg2 = nullptr;
};
enum OpFlags : unsigned {
    OF_NESTED = 1,       // runs user scanners / nested scans
    OF_LOCALE = 2,       // explicitly localized
    OF_GLOBALLOC = 4,    // uses an iostream (which would take the global locale)
    OF_WIDE = 8,
    OF_CHRONO = 16,
    OF_REGEX = 32,
    OF_THROWS = 64,      // user scanner may throw (controlled by g_scanner_throw_at)
    OF_NOLINE = 128,     // legitimately asks for input beyond the token's own terminator
    OF_ALLOWS_EMPTY = 256,
    OF_SVONLY = 1024,    // only takes strings; picked only when asked for
    OF_CHAIN = 512       // several calls: a failure does not give back what earlier calls consumed
};
struct OpDef {
    std::string id;
    std::string fmt;
    std::wstring wfmt;
    std::string tmpl;    // input template, see gen.cpp
    unsigned flags = 0;
    Outcome (*run)(const OpDef&, Src, const SrcArg&) = nullptr;
    Outcome (*wrun)(const OpDef&, Src, const WSrcArg&) = nullptr;
};
std::vector<OpDef>& ops();
const OpDef* find_op(const std::string& id);
std::vector<OpDef>& protos();                    // argument lists for made-up formats
const OpDef* find_dyn(const std::string& id);    // "D:types:hex of format"
void intern_dyn(const std::string& id);
void preload_locales();
bool flat_model(const std::string& id, const std::string& text, Outcome& o);
extern long g_scanner_calls, g_scanner_throw_at;
void scanner_tick();

// ---------------------------------------------------------------- threads (rt.cpp)
struct Schedule {
    std::vector<std::pair<uint64_t, int>> preempt;  // (global step, target thread), sorted
    std::vector<int> forced;                        // choices when the current thread cannot go on
};
struct SchedConfig {
    bool replay = true;
    Schedule sched;                  // replay input
    // generation:
    uint64_t seed = 0;
    std::vector<uint64_t> bb_points; // steps at which to preempt
    double sync_prob = 0;            // probability of preempting at each synchronisation point
};
struct SchedResult {
    Schedule taken;
    bool deadlock = false;
    std::string blocked;
    uint64_t steps = 0, ihash = 0;
};
SchedResult run_threads(const std::vector<std::function<void()>>& bodies, const SchedConfig& cfg);
int cur_thread();
uint64_t now_seq();                  // global event sequence number
void sync_point(const char* what);
bool lock_held_by_other(FILE* f);
int lock_depth(FILE* f);             // of current thread
long lock_min_depth(FILE* f);        // minimum depth of current owner since mark
void lock_mark(FILE* f);

}  // namespace sim
