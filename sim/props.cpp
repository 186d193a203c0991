// The properties: for each, a seeded generator of cases and an executor with its oracle.
#include "plan.h"
#include "recs.h"

#include <algorithm>
#include <cerrno>
#include <clocale>
#include <cstdlib>
#include <ext/stdio_sync_filebuf.h>
#include <istream>
#include <locale>
#include <memory>
#include <sstream>
#include <sys/mman.h>
#include <thread>

extern "C" int __real_ftrylockfile(FILE*);
extern "C" void __real_funlockfile(FILE*);

namespace sim {

// =============================================================== helpers

template <class F>
static Outcome guarded(F f)
{
    ++g_stats->scans;
    try {
        return f();
    }
    catch (const SimThrow& e) {
        Outcome o;
        o.code = -2;
        o.exc = "SimThrow";
        return o;
    }
    catch (const std::bad_alloc&) {
        Outcome o;
        o.code = -3;
        o.exc = "bad_alloc";
        return o;
    }
    catch (const std::exception& e) {
        Outcome o;
        o.code = -1;
        o.exc = std::string("exception: ") + e.what();
        return o;
    }
}

// Text placed against an inaccessible page, so that touching a byte outside of it ends
// the process also without a sanitizer
template <class CharT>
class GuardedText {
    static constexpr size_t page = 4096, room = 16 * page, slots = 16;
    static char* reserve()
    {
        char* m = static_cast<char*>(mmap(nullptr, slots * (room + page) + page, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
        if (m == MAP_FAILED) abort();
        for (size_t i = 0; i < slots; ++i) mprotect(m + page + i * (room + page), room, PROT_READ | PROT_WRITE);
        return m + page;
    }
    static char* const base;
    static unsigned& used()
    {
        static unsigned u = 0;
        return u;
    }
    int slot = -1;
    std::basic_string<CharT> fallback;
    std::basic_string_view<CharT> v;

public:
    explicit GuardedText(std::basic_string_view<CharT> t)
    {
        const size_t n = t.size() * sizeof(CharT);
        for (int i = 0; i < static_cast<int>(slots) && slot < 0; ++i)
            if (!(used() >> i & 1)) slot = i;
        if (slot < 0 || n > room) {
            slot = -1;
            fallback = t;
            v = fallback;
            return;
        }
        used() |= 1u << slot;
        char* b = base + static_cast<size_t>(slot) * (room + page);
        char* at = t.size() % 5 == 4 ? b : b + room - n;   // now and then against the page in front
        if (n) memcpy(at, t.data(), n);
        v = {reinterpret_cast<CharT*>(at), t.size()};
    }
    ~GuardedText()
    {
        if (slot >= 0) used() &= ~(1u << slot);
    }
    GuardedText(const GuardedText&) = delete;
    GuardedText& operator=(const GuardedText&) = delete;
    std::basic_string_view<CharT> view() const { return v; }
};
template <class CharT> char* const GuardedText<CharT>::base = GuardedText<CharT>::reserve();
static Outcome ref_run(const OpDef& op, std::string_view text)
{
    if (op.flags & OF_WIDE) {
        GuardedText<wchar_t> w(widen(text));
        WSrcArg a;
        a.sv = w.view();
        return guarded([&] { return op.wrun(op, S_SV, a); });
    }
    GuardedText<char> t(text);
    SrcArg a;
    a.sv = t.view();
    return guarded([&] { return op.run(op, S_SV, a); });
}

// run on a range-like source
static Outcome range_run(const OpDef& op, Src k, std::string_view text, RangeCtl* ctl)
{
    if (op.flags & OF_WIDE) {
        std::wstring w = widen(text);
        WSrcArg a;
        std::deque<wchar_t> dq;
        std::list<wchar_t> ls;
        SimRange<wchar_t> rg{w.data(), w.data() + w.size(), ctl};
        SimRange2<wchar_t> rg2{w.data(), w.data() + w.size(), ctl};
        if (k == S_DEQUE) dq.assign(w.begin(), w.end());
        if (k == S_LIST) ls.assign(w.begin(), w.end());
        a.dq = &dq;
        a.ls = &ls;
        a.rg = &rg;
        a.rg2 = &rg2;
        probe(PR_WIDE);
        return guarded([&] { return op.wrun(op, k, a); });
    }
    SrcArg a;
    std::deque<char> dq;
    std::list<char> ls;
    SimRange<char> rg{text.data(), text.data() + text.size(), ctl};
    SimRange2<char> rg2{text.data(), text.data() + text.size(), ctl};
    if (k == S_DEQUE) dq.assign(text.begin(), text.end());
    if (k == S_LIST) ls.assign(text.begin(), text.end());
    a.dq = &dq;
    a.ls = &ls;
    a.rg = &rg;
    a.rg2 = &rg2;
    return guarded([&] { return op.run(op, k, a); });
}
static Outcome file_run(const OpDef& op, FILE* f, bool as_stdin = false)
{
    SrcArg a;
    a.f = f;
    if (as_stdin) {
        FILE* save = stdin;
        stdin = f;
        auto o = guarded([&] { return op.run(op, S_STDIN, a); });
        stdin = save;
        return o;
    }
    return guarded([&] { return op.run(op, S_FILE, a); });
}
static const OpDef& get_op(const std::string& id)
{
    auto* o = find_op(id);
    if (!o) {
        fprintf(stderr, "unknown op %s\n", id.c_str());
        abort();
    }
    return *o;
}
static int regex_rejected() { return 1; }   // scan_error::invalid_format_string
static void same_or_violate(const char* cls, const OpDef& op, std::string_view text, const Outcome& got, const Outcome& want, const std::string& extra = {})
{
    if (got.code == -1 || want.code == -1)
        violate("exception", "op " + op.id + " '" + op.fmt + "' on " + quote(text) + ": got " + got.str() + ", contiguous " + want.str() + extra);
    if ((op.flags & OF_REGEX) && !got.ok && got.code == regex_rejected()) return;   // documented: no regexes on segmented sources
    if (!valid_utf8(text)) return;   // input is required to be valid Unicode; only memory/stream safety is promised otherwise
    if (!(got == want))
        violate(cls, "op " + op.id + " '" + op.fmt + "' on " + quote(text) + ": got " + got.str() + ", contiguous string gives " + want.str() + extra);
}
static void check_deferred()
{
    Violation v;
    if (take_deferred(v)) throw v;
}
static void note_delivery(const FileSpec& f, const Outcome& ref)
{
    // probes: does a chunk boundary fall strictly inside the consumed text / inside a code point?
    size_t at = 0;
    for (auto& e : f.events) {
        if (e.type != 'D') continue;
        at += static_cast<size_t>(e.n);
        if (at >= f.content.size()) break;
        if (ref.ok && static_cast<long>(at) < ref.consumed) probe(PR_SPLIT_IN_TOKEN);
        if ((static_cast<unsigned char>(f.content[at]) & 0xc0) == 0x80) probe(PR_SPLIT_IN_CODEPOINT);
    }
    if (!valid_utf8(f.content)) probe(PR_INVALID_UTF8);
}

// =============================================================== P01 delivery independence (FILE*)
static void gen_file_case(Rng& r, Case& c, unsigned must, unsigned mustnot)
{
    const OpDef& op = pick_op(r, must, mustnot | OF_WIDE);
    SrcSpec s;
    std::string pre;
    if (r.chance(0.25)) pre = gen_tail(r);
    s.file.content = pre + gen_text(r, op.tmpl, 0.25) + gen_tail(r);
    s.file.events = gen_delivery(r, s.file.content.size());
    gen_buffering(r, s.file);
    s.kind = S_FILE;
    c.srcs = {s};
    c.steps = {{0, 0, "scan", op.id, 0}};
    if (!pre.empty()) c.set("skip", static_cast<long>(pre.size()));
    if (r.chance(0.1)) c.set("ungot", static_cast<long>("7a -"[r.below(4)]));
    if (r.chance(0.1)) c.set("stdin", 1);
}
static void gen_P01(Rng& r, Case& c) { gen_file_case(r, c, 0, OF_NESTED); }

static void exec_file_diff(Case& c)
{
    auto& spec = c.srcs.at(0).file;
    SimFile sf;
    sf.open(spec);
    long skip = std::min<long>(c.par("skip", 0), static_cast<long>(spec.content.size()));
    for (long i = 0; i < skip; ++i) getc_unlocked(sf.f);
    std::string text = spec.content.substr(static_cast<size_t>(skip));
    if (long u = c.par("ungot", 0)) {
        ungetc(static_cast<int>(u), sf.f);
        text.insert(text.begin(), static_cast<char>(u));
        probe(PR_PUSHBACK_AREA);
    }
    const OpDef& op = get_op(c.steps.at(0).arg);
    Outcome want = ref_run(op, text);
    note_delivery(spec, want);
    Outcome got = file_run(op, sf.f, c.par("stdin", 0));
    std::string rest = drain(sf.f);
    if (got.ok) {
        if (rest.size() > text.size() || text.compare(text.size() - rest.size(), rest.size(), rest) != 0)
            violate("not-a-suffix", "op " + op.id + " on " + quote(text) + ": remaining stream " + quote(rest) + " is not a suffix of the input");
        got.consumed = static_cast<long>(text.size() - rest.size());
    }
    ev("P01 %s %s -> %s", op.id.c_str(), quote(text).c_str(), got.str().c_str());
    same_or_violate("mismatch", op, text, got, want);
    if (got.ok && op.tmpl.find("% %") != std::string::npos) probe(PR_OK_MULTI);
    check_deferred();
}

// =============================================================== P02 forward ranges
static void gen_P02(Rng& r, Case& c)
{
    int n = r.chance(0.2) ? 2 : 1;
    for (int t = 0; t < n; ++t) {
        const OpDef& op = pick_op(r, 0, OF_NESTED);
        SrcSpec s;
        s.kind = static_cast<Src>(r.range(S_DEQUE, S_RANGE2));
        s.file.content = gen_text(r, op.tmpl, 0.3) + gen_tail(r);
        c.srcs.push_back(s);
        c.steps.push_back({t, t, "scan", op.id, r.chance(0.1) ? r.range(0, 12) : -1});
    }
    if (n > 1) {
        c.set("schedseed", static_cast<long>(r.below(1u << 30)));
        c.set("syncp", r.range(5, 60));
    }
}
static uint64_t estimate_steps(const Case& c)
{
    uint64_t e = 0;
    for (auto& s : c.steps) e += 300 + 60 * c.srcs[static_cast<size_t>(s.src)].file.content.size();
    return e;
}
static SchedConfig sched_of(Case& c)
{
    SchedConfig cfg;
    if (c.has_sched) {
        cfg.replay = true;
        cfg.sched = c.sched;
        return cfg;
    }
    cfg.replay = false;
    cfg.seed = static_cast<uint64_t>(c.par("schedseed", 1));
    Rng r(cfg.seed ^ 0xabcdef);
    int d = static_cast<int>(c.par("preempts", 3));
    uint64_t est = estimate_steps(c);
    if (c.par("dense", 0)) {
        // several switches close to each other
        uint64_t at = 1 + r.below(r.chance(0.5) ? 2 * est : est / 2 + 1);
        for (int i = 0; i < d; ++i) {
            cfg.bb_points.push_back(at);
            at += 1 + r.below(r.chance(0.7) ? 40 : 600);
        }
    }
    else
        for (int i = 0; i < d; ++i) cfg.bb_points.push_back(1 + r.below(r.chance(0.4) ? est : r.chance(0.4) ? 4 * est : est / 4 + 1));
    std::sort(cfg.bb_points.begin(), cfg.bb_points.end());
    cfg.sync_prob = static_cast<double>(c.par("syncp", 10)) / 100.0;
    return cfg;
}
static SchedResult run_sched(Case& c, const std::vector<std::function<void()>>& bodies)
{
    SchedConfig cfg = sched_of(c);
    uint64_t lim = estimate_steps(c) * 400 + 4000000;
    set_step_limit(lim);
    SchedResult r = run_threads(bodies, cfg);
    step_limit_off();
    c.sched = r.taken;
    c.has_sched = true;
    ev("sched steps=%lu ihash=%lx", static_cast<unsigned long>(r.steps), static_cast<unsigned long>(r.ihash));
    if (r.deadlock) violate("deadlock", "threads cannot make progress: " + r.blocked);
    return r;
}
static void exec_P02(Case& c)
{
    size_t n = c.steps.size();
    std::vector<Outcome> got(n);
    std::vector<RangeCtl> ctl(n);
    auto body = [&](size_t i) {
        auto& st = c.steps[i];
        auto& s = c.srcs.at(static_cast<size_t>(st.src));
        ctl[i].throw_at = st.n;
        got[i] = range_run(get_op(st.arg), s.kind, s.file.content, &ctl[i]);
        if (got[i].code == -2) {   // iterator threw: the same range must scan normally afterwards
            ctl[i].throw_at = -1;
            got[i] = range_run(get_op(st.arg), s.kind, s.file.content, &ctl[i]);
        }
    };
    if (n == 1)
        body(0);
    else {
        std::vector<std::function<void()>> b;
        for (size_t i = 0; i < n; ++i) b.push_back([&, i] { body(i); });
        run_sched(c, b);
    }
    for (size_t i = 0; i < n; ++i) {
        auto& st = c.steps[i];
        auto& s = c.srcs.at(static_cast<size_t>(st.src));
        const OpDef& op = get_op(st.arg);
        Outcome want = ref_run(op, s.file.content);
        ev("P02 %s %s %s -> %s", src_names[s.kind], op.id.c_str(), quote(s.file.content).c_str(), got[i].str().c_str());
        if (ctl[i].oob) violate("read-past-end", "op " + op.id + " on " + quote(s.file.content) + ": iterator dereferenced or advanced past the end");
        same_or_violate("mismatch", op, s.file.content, got[i], want, std::string(" [source ") + src_names[s.kind] + "]");
    }
    check_deferred();
}

// =============================================================== P03/P04/P05 stream histories
struct History {
    SimFile sf;
    std::string model;                                // characters still to be read, in order
    std::vector<std::pair<size_t, char>> faults;      // static positions of E/X events in the content
    bool faulty = false;

    void open(const FileSpec& s)
    {
        sf.open(s);
        model = s.content;
        size_t at = 0;
        for (auto& e : s.events) {
            if (e.type == 'D')
                at = std::min(at + static_cast<size_t>(e.n), s.content.size());
            else
                faults.emplace_back(at, e.type);
        }
        faulty = !faults.empty();
    }
    size_t fired() const { return static_cast<size_t>(sf.eofs + sf.errs); }
    // what one operation can see before end of file / a fault
    std::string visible() const
    {
        size_t undelivered = sf.spec.content.size() - sf.pos;
        std::string v = model.substr(0, model.size() - undelivered);
        if (feof(sf.f)) return v;
        size_t until = sf.spec.content.size();
        if (fired() < faults.size()) until = faults[fired()].first;
        else if (!faults.empty() && faults.back().second == 'P') until = sf.pos;
        v += sf.spec.content.substr(sf.pos, until - sf.pos);
        return v;
    }
};

static void hist_scan(History& h, const OpDef& op, bool as_stdin, const Step& st)
{
    std::string vis = h.visible();
    Outcome want = ref_run(op, vis);
    size_t before = h.fired();
    long eofs = h.sf.eofs;
    if (st.n > 0) ungetc_fail_after(st.n - 1);
    long reads0 = h.sf.reads;
    long errs = h.sf.errs;
    bool err_before = ferror(h.sf.f) != 0;
    Outcome got = file_run(op, h.sf.f, as_stdin);
    bool err_after = ferror(h.sf.f) != 0;
    bool pbfail = st.n > 0 && ungetc_failed();
    ungetc_fail_after(-1);
    if (h.fired() != before) {
        probe(PR_RESUMED_AFTER_FAULT);
        probe(h.sf.eofs != eofs ? PR_EOF_IN_SCAN : PR_ERR_IN_SCAN);
    }
    ev("scan %s vis=%s -> %s", op.id.c_str(), quote(vis).c_str(), got.str().c_str());
    if (got.code == -1) violate("exception", "op " + op.id + " on " + quote(vis) + ": " + got.str());
    if (err_after != (err_before || h.sf.errs != errs))
        violate("error-indicator", "op " + op.id + " on " + quote(vis) + ": " + (err_after ? "the error indicator of the stream is set without a read error" : "the error indicator of the stream is not set after a read error"));
    if (pbfail) {
        // cannot know where the stream stands; success may only be reported if nothing was lost
        if (got.ok) {
            std::string rest = drain(h.sf.f);
            std::string want_rest = h.model.substr(static_cast<size_t>(want.ok ? want.consumed : 0));
            if (!(want.ok && want.vals == got.vals && want_rest == rest))
                violate("silent-loss", "op " + op.id + " on " + quote(vis) + ": pushback failed but the scan reported success; remaining stream " + quote(rest) + ", expected " + quote(want_rest));
        }
        throw int(0);   // end of this case
    }
    if (!valid_utf8(vis)) {   // results are unspecified, the stream must still be intact
        if (!got.ok) return;
        std::string rest;
        for (int i = 0; i < 16; ++i) {
            rest += drain(h.sf.f);
            clearerr(h.sf.f);
        }
        if (!h.faulty && (rest.size() > h.model.size() || h.model.compare(h.model.size() - rest.size(), rest.size(), rest) != 0))
            violate("lost-or-duplicated", "remaining stream " + quote(rest) + " is not a suffix of " + quote(h.model));
        throw int(0);
    }
    if ((op.flags & OF_REGEX) && !got.ok && got.code == regex_rejected()) return;
    if (want.ok && h.sf.reads > reads0 + 1) probe(PR_SUCCESS_PUTBACK);
    if (!want.ok && h.sf.reads > reads0 + 1) probe(PR_ROLLBACK_MULTI);
    if (got.ok) {
        if (!want.ok || got.vals != want.vals)
            violate("wrong-value", "op " + op.id + " '" + op.fmt + "' with " + quote(vis) + " next in the stream: got " + got.vals + ", expected " + want.str());
        h.model.erase(0, static_cast<size_t>(want.consumed));
    }
    else {
        bool fault_hit = h.fired() != before;
        if (want.ok && !fault_hit)
            violate("wrong-failure", "op " + op.id + " '" + op.fmt + "' with " + quote(vis) + " next in the stream: failed with " + got.str() + ", expected " + want.str());
        if (!want.ok && got.code != want.code && !fault_hit)
            violate("wrong-error", "op " + op.id + " '" + op.fmt + "' with " + quote(vis) + ": " + got.str() + ", expected " + want.str());
    }
}

static void exec_history(Case& c)
{
    History h;
    h.open(c.srcs.at(0).file);
    int io_flags = 0;
    std::unique_ptr<__gnu_cxx::stdio_sync_filebuf<char>> sb;
    std::unique_ptr<std::istream> is;
    bool as_stdin = c.par("stdin", 0);
    try {
        for (auto& st : c.steps) {
            check_deferred();
            if (st.verb == "scan") {
                hist_scan(h, get_op(st.arg), as_stdin, st);
            }
            else if (st.verb == "getc") {
                std::string vis = h.visible();
                int ch = getc_unlocked(h.sf.f);
                ev("getc %d", ch);
                int want = vis.empty() ? EOF : static_cast<unsigned char>(vis[0]);
                if (ch != want)
                    violate("wrong-char", "getc returned " + std::to_string(ch) + ", expected " + std::to_string(want) + " (next in stream " + quote(vis) + ")");
                if (!vis.empty()) h.model.erase(0, 1);
            }
            else if (st.verb == "ungetc") {
                int ch = ungetc(static_cast<int>(st.n & 0xff), h.sf.f);
                if (ch == EOF) throw int(0);
                h.model.insert(h.model.begin(), static_cast<char>(st.n & 0xff));
                probe(PR_PUSHBACK_AREA);
                ev("ungetc %ld", st.n);
            }
            else if (st.verb == "fgets") {
                std::string vis = h.visible();
                char buf[64] = {0};
                long n = std::min<long>(std::max<long>(st.n, 2), 60);
                char* p = fgets(buf, static_cast<int>(n), h.sf.f);
                size_t nl = vis.find('\n');
                std::string want = vis.substr(0, std::min<size_t>(nl == std::string::npos ? vis.size() : nl + 1, static_cast<size_t>(n - 1)));
                std::string got = p ? std::string(buf, want.size()) : std::string{};
                ev("fgets %s", quote(got).c_str());
                if (got != want)
                    violate("wrong-char", "fgets returned " + quote(got) + ", expected " + quote(want));
                h.model.erase(0, want.size());
            }
            else if (st.verb == "fread") {
                std::string vis = h.visible();
                char buf[64];
                size_t n = static_cast<size_t>(std::min<long>(std::max<long>(st.n, 1), 60));
                size_t m = fread(buf, 1, n, h.sf.f);
                std::string want = vis.substr(0, n), got(buf, m);
                ev("fread %s", quote(got).c_str());
                if (got != want) violate("wrong-char", "fread returned " + quote(got) + ", expected " + quote(want));
                h.model.erase(0, want.size());
            }
            else if (st.verb == "fscanf") {
                std::string vis = h.visible();
                char buf[32] = {0};
                int k = fscanf(h.sf.f, "%20s", buf);
                size_t i = 0;
                while (i < vis.size() && isspace(static_cast<unsigned char>(vis[i]))) ++i;
                size_t j = i;
                while (j < vis.size() && j - i < 20 && !isspace(static_cast<unsigned char>(vis[j]))) ++j;
                std::string want = vis.substr(i, j - i);
                ev("fscanf %d %s", k, quote(buf).c_str());
                if (want.find('\0') != std::string::npos) throw int(0);
                if ((k == 1 ? std::string(buf) : std::string()) != want) violate("wrong-char", "fscanf read " + quote(buf) + ", expected " + quote(want));
                h.model.erase(0, j);
            }
            else if (st.verb == "istream" || st.verb == "getline") {
                if (!is) {
                    sb = std::make_unique<__gnu_cxx::stdio_sync_filebuf<char>>(h.sf.f);
                    is = std::make_unique<std::istream>(sb.get());
                }
                is->clear();
                std::string vis = h.visible();
                std::istringstream ref(vis);
                std::string a, b;
                if (st.verb == "istream") {
                    *is >> a;
                    ref >> b;
                }
                else {
                    std::getline(*is, a);
                    std::getline(ref, b);
                }
                ev("%s %s", st.verb.c_str(), quote(a).c_str());
                if (a != b) violate("wrong-char", "iostream read " + quote(a) + ", expected " + quote(b));
                ref.clear();
                std::string rest;
                std::copy(std::istreambuf_iterator<char>(ref), std::istreambuf_iterator<char>(), std::back_inserter(rest));
                h.model.erase(0, vis.size() - rest.size());
            }
            else if (st.verb == "seek" && (h.sf.spec.bufmode & BUF_SEEKABLE)) {
                size_t to = static_cast<size_t>(st.n) % (h.sf.spec.content.size() + 1);
                int rc = fseek(h.sf.f, static_cast<long>(to), SEEK_SET);
                ev("fseek %zu -> %d", to, rc);
                if (rc != 0) violate("seek-failed", "fseek to " + std::to_string(to) + " failed");
                h.model = h.sf.spec.content.substr(to);
            }
            else if (st.verb == "tell" && (h.sf.spec.bufmode & BUF_SEEKABLE)) {
                long got = ftell(h.sf.f);
                long want = static_cast<long>(h.sf.spec.content.size()) - static_cast<long>(h.model.size());
                ev("ftell %ld", got);
                // meaningful only while no foreign characters are pushed back
                if (want >= 0 && h.model == h.sf.spec.content.substr(static_cast<size_t>(want)) && got != want)
                    violate("wrong-position", "ftell gives " + std::to_string(got) + ", expected " + std::to_string(want));
            }
            else if (st.verb == "clearerr")
                clearerr(h.sf.f);
            (void)io_flags;
        }
        // the rest of the stream must be exactly what was not consumed
        std::string got;
        for (int i = 0; i < 64; ++i) {
            if (h.faulty) clearerr(h.sf.f);
            bool all_fired = h.fired() >= h.faults.size();
            std::string part = drain(h.sf.f);
            got += part;
            if (all_fired && !(h.faulty && h.faults.back().second == 'P') && part.empty()) break;
            if (h.faulty && h.faults.back().second == 'P' && i > 8) break;
        }
        std::string want = h.model;
        if (h.faulty && h.faults.back().second == 'P') want.resize(std::min(want.size(), got.size()));
        ev("drain %s", quote(got).c_str());
        if (got != want)
            violate("lost-or-duplicated", "remaining stream is " + quote(got) + ", expected " + quote(h.model));
    }
    catch (int) {
    }
    check_deferred();
}

static void gen_hist_common(Rng& r, Case& c, const std::vector<std::string>& verbs, double scan_p, double mism, double mutate, int nsteps)
{
    // ops first, then content that (mostly) suits them
    std::string content;
    for (int i = 0; i < nsteps; ++i) {
        if (r.chance(scan_p)) {
            const OpDef& op = pick_op(r, 0, OF_CHAIN | OF_WIDE);
            const OpDef& text_op = r.chance(mism) ? pick_op(r, 0, OF_CHAIN | OF_WIDE) : op;
            content += gen_text(r, text_op.tmpl, mutate);
            if (r.chance(0.8)) content += r.chance(0.7) ? " " : "\n";
            c.steps.push_back({0, 0, "scan", op.id, 0});
        }
        else {
            Step s{0, 0, r.pick(verbs), "", 0};
            if (s.verb == "ungetc") s.n = "az0 9-\n"[r.below(7)];
            if (s.verb == "fgets" || s.verb == "fread") s.n = r.range(1, 12);
            if (s.verb == "seek") s.n = static_cast<long>(r.below(content.size() + 10));
            content += gen_tail(r);
            c.steps.push_back(s);
        }
    }
    SrcSpec s;
    s.kind = S_FILE;
    s.file.content = content + gen_tail(r);
    s.file.events = gen_delivery(r, s.file.content.size());
    gen_buffering(r, s.file);
    c.srcs = {s};
    if (r.chance(0.15)) c.set("stdin", 1);
}
static void gen_P03(Rng& r, Case& c)
{
    gen_hist_common(r, c, {"getc", "getc", "ungetc", "fgets", "fread", "fscanf", "istream", "getline", "seek", "tell"}, 0.65, 0.1, 0.08, r.range(2, 7));
}
static void gen_P04(Rng& r, Case& c)
{
    // chains of attempts with different formats at the same place, many of which fail late
    int groups = r.range(1, 3);
    std::string content;
    for (int g = 0; g < groups; ++g) {
        const OpDef& right = pick_op(r, 0, OF_CHAIN | OF_WIDE);
        std::string text = gen_text(r, right.tmpl, 0.1);
        if (r.chance(0.3)) text = gen_text(r, "%i% %w% ", 0) + text;
        content += text + (r.chance(0.8) ? " " : "");
        int tries = r.range(1, 3);
        for (int t = 0; t < tries; ++t) {
            // prefer multi-field ops as the failing attempts
            const OpDef* op = &pick_op(r, 0, OF_CHAIN | OF_WIDE);
            for (int k = 0; k < 3 && op->tmpl.size() < 6; ++k) op = &pick_op(r, 0, OF_CHAIN | OF_WIDE);
            c.steps.push_back({0, 0, "scan", op->id, 0});
        }
        if (r.chance(0.7)) c.steps.push_back({0, 0, "scan", right.id, 0});
        if (r.chance(0.3)) c.steps.push_back({0, 0, "getc", "", 0});
    }
    SrcSpec s;
    s.kind = S_FILE;
    s.file.content = content + gen_tail(r);
    s.file.events = gen_delivery(r, s.file.content.size());
    gen_buffering(r, s.file);
    c.srcs = {s};
    if (r.chance(0.1)) c.set("stdin", 1);
}
static void gen_P05(Rng& r, Case& c)
{
    gen_hist_common(r, c, {"getc", "clearerr", "clearerr"}, 0.75, 0.1, 0.05, r.range(1, 6));
    auto& f = c.srcs[0].file;
    bool pb = r.chance(0.2);
    if (pb) {
        // failing pushback instead of failing reads
        for (auto& s : c.steps)
            if (s.verb == "scan" && r.chance(0.5)) s.n = r.range(1, 6);
        return;
    }
    int nf = r.range(1, 3);
    static const std::vector<int> errs = {EIO, EINTR, EAGAIN, EIO, ECONNRESET};
    if (f.events.empty()) f.events.push_back({'D', static_cast<int>(r.below(f.content.size() + 1))});
    for (int i = 0; i < nf; ++i) {
        size_t at = r.below(f.events.size() + 1);
        Ev e = r.chance(0.35) ? Ev{'E', 0} : Ev{'X', r.pick(errs)};
        f.events.insert(f.events.begin() + static_cast<long>(at), e);
    }
    if (r.chance(0.05)) f.events.push_back({'P', EIO});
    // give later steps a chance to continue
    std::vector<Step> out;
    for (auto& s : c.steps) {
        out.push_back(s);
        if (r.chance(0.5)) out.push_back({0, 0, "clearerr", "", 0});
        if (r.chance(0.25) && s.verb == "scan") out.push_back(s);
    }
    c.steps = out;
}

// =============================================================== P06/P07 shared stream
struct HEv {
    int thread;
    uint64_t inv, ret;
    Step st;
    Outcome out;
    int ch = 0;
    std::string line;
};
static void stream_op(SimFile& sf, const Step& st, HEv& e)
{
    e.thread = cur_thread();
    e.st = st;
    e.inv = now_seq();
    const bool as_stdin = stdin == sf.f && (st.n & 1);
    if (st.verb == "scan")
        e.out = file_run(get_op(st.arg), sf.f, as_stdin);
    else if (st.verb == "getc")
        e.ch = getc(sf.f);
    else if (st.verb == "fread") {
        char b[64];
        e.line.assign(b, fread(b, 1, static_cast<size_t>(std::min<long>(std::max<long>(st.n, 1), 60)), sf.f));
    }
    else if (st.verb == "fgets") {
        char b[64];
        e.line = fgets(b, static_cast<int>(std::min<long>(std::max<long>(st.n, 2), 60)), sf.f) ? b : "";
    }
    else if (st.verb == "locked2") {   // two calls under the caller's own lock
        flockfile(sf.f);
        e.out = file_run(get_op(st.arg), sf.f, as_stdin);
        e.ch = getc(sf.f);
        funlockfile(sf.f);
    }
    e.ret = now_seq();
    ev("T%d %s %s -> %s ch=%d line=%s", e.thread, st.verb.c_str(), st.arg.c_str(), e.out.str().c_str(), e.ch, quote(e.line).c_str());
}
// apply to model; false if the recorded result is impossible here
static bool model_apply(const HEv& e, std::string_view rest, size_t& used)
{
    auto getc_ok = [&](std::string_view r, int ch) { return ch == (r.empty() ? EOF : static_cast<unsigned char>(r[0])); };
    used = 0;
    if (e.st.verb == "scan" || e.st.verb == "locked2") {
        Outcome w = ref_run(get_op(e.st.arg), rest);
        if (w.ok != e.out.ok) return false;
        if (w.ok ? w.vals != e.out.vals : w.code != e.out.code) return false;
        if (w.ok) used = static_cast<size_t>(w.consumed);
        if (e.st.verb == "locked2") {
            auto r2 = rest.substr(used);
            if (!getc_ok(r2, e.ch)) return false;
            if (!r2.empty()) ++used;
        }
        return true;
    }
    if (e.st.verb == "getc") {
        if (!getc_ok(rest, e.ch)) return false;
        used = rest.empty() ? 0 : 1;
        return true;
    }
    if (e.st.verb == "fread") {
        used = std::min(rest.size(), static_cast<size_t>(std::min<long>(std::max<long>(e.st.n, 1), 60)));
        return e.line == rest.substr(0, used);
    }
    if (e.st.verb == "fgets") {
        long n = std::min<long>(std::max<long>(e.st.n, 2), 60);
        size_t nl = rest.find('\n');
        std::string want(rest.substr(0, std::min<size_t>(nl == std::string_view::npos ? rest.size() : nl + 1, static_cast<size_t>(n - 1))));
        if (want != e.line) return false;
        used = want.size();
        return true;
    }
    return true;
}
static bool linearizable(const std::vector<HEv>& h, const std::string& content, const std::string& final_rest)
{
    size_t n = h.size();
    std::map<std::pair<uint32_t, size_t>, bool> seen;
    std::map<std::pair<size_t, size_t>, std::pair<bool, size_t>> memo;   // (event, pos) -> result
    std::function<bool(uint32_t, size_t)> go = [&](uint32_t done, size_t pos) -> bool {
        if (done == (1u << n) - 1) return content.substr(pos) == final_rest;
        // scanning a char may have taken half of a code point: the later calls
        // see malformed input, for which no particular result is promised
        if (pos < content.size() && (content[pos] & 0xC0) == 0x80) return true;
        auto key = std::make_pair(done, pos);
        if (seen.count(key)) return false;
        seen[key] = true;
        uint64_t minret = ~uint64_t{0};
        for (size_t i = 0; i < n; ++i)
            if (!(done >> i & 1)) minret = std::min(minret, h[i].ret);
        for (size_t i = 0; i < n; ++i) {
            if (done >> i & 1 || h[i].inv > minret) continue;
            auto mk = std::make_pair(i, pos);
            auto it = memo.find(mk);
            if (it == memo.end()) {
                size_t used = 0;
                bool ok = model_apply(h[i], std::string_view(content).substr(pos), used);
                it = memo.emplace(mk, std::make_pair(ok, used)).first;
            }
            if (it->second.first && go(done | (1u << i), pos + it->second.second)) return true;
        }
        return false;
    };
    return go(0, 0);
}
static void gen_sched(Rng& r, Case& c)
{
    c.set("schedseed", static_cast<long>(r.below(1u << 30)));
    c.set("preempts", r.range(0, 8));
    static const int pr[] = {0, 5, 20, 40, 70};
    c.set("syncp", pr[r.below(5)]);
}
static void gen_P06(Rng& r, Case& c)
{
    int nt = r.range(2, 3);
    std::string content;
    for (int t = 0; t < nt; ++t) {
        int k = r.range(1, 3);
        for (int i = 0; i < k; ++i) {
            double x = r.below(100) / 100.0;
            if (x < 0.72) {
                const OpDef& op = pick_op(r, 0, OF_CHAIN | OF_WIDE | OF_REGEX | OF_NOLINE);
                const OpDef& txt = r.chance(0.3) ? pick_op(r, 0, OF_CHAIN | OF_WIDE | OF_REGEX) : op;
                content += gen_text(r, txt.tmpl, 0.05) + (r.chance(0.8) ? " " : "\n");
                c.steps.push_back({t, 0, "scan", op.id, 0});
            }
            else if (x < 0.8) {
                const OpDef& op = pick_op(r, 0, OF_CHAIN | OF_WIDE | OF_REGEX | OF_NOLINE);
                content += gen_text(r, op.tmpl, 0.05) + " ";
                c.steps.push_back({t, 0, "locked2", op.id, 0});
            }
            else if (x < 0.88)
                c.steps.push_back({t, 0, "getc", "", 0});
            else if (x < 0.94)
                c.steps.push_back({t, 0, "fread", "", r.range(1, 12)});
            else
                c.steps.push_back({t, 0, "fgets", "", r.range(2, 10)});
        }
    }
    if (r.chance(0.25)) {
        c.set("stdin", 1);
        for (auto& st : c.steps)
            if (!st.arg.empty()) st.n = r.chance(0.7);
    }
    SrcSpec s;
    s.kind = S_FILE;
    s.file.content = content + gen_tail(r);
    s.file.content.erase(std::remove(s.file.content.begin(), s.file.content.end(), '\0'), s.file.content.end());
    s.file.events = gen_delivery(r, s.file.content.size());
    gen_buffering(r, s.file);
    c.srcs = {s};
    gen_sched(r, c);
    for (auto& st : c.steps)
        if (st.verb != "scan") {   // byte-wise readers could split a code point: ASCII only
            auto& t = c.srcs[0].file.content;
            t.erase(std::remove_if(t.begin(), t.end(), [](char ch) { return ch & 0x80; }), t.end());
            break;
        }
}
static void exec_P06(Case& c)
{
    SimFile sf;
    sf.open(c.srcs.at(0).file);
    int nt = 0;
    for (auto& s : c.steps) nt = std::max(nt, s.thread + 1);
    if (c.steps.size() > 12) c.steps.resize(12);
    std::vector<HEv> hist(c.steps.size());
    std::vector<std::function<void()>> bodies;
    for (int t = 0; t < nt; ++t)
        bodies.push_back([&, t] {
            for (size_t i = 0; i < c.steps.size(); ++i)
                if (c.steps[i].thread == t) stream_op(sf, c.steps[i], hist[i]);
        });
    FILE* save = stdin;
    if (c.par("stdin", 0)) stdin = sf.f;
    run_sched(c, bodies);
    stdin = save;
    check_deferred();
    std::string rest = drain(sf.f);
    ev("drain %s", quote(rest).c_str());
    for (auto& e : hist)
        if (e.out.code == -1) violate("exception", "op " + e.st.arg + ": " + e.out.str());
    if (!valid_utf8(c.srcs[0].file.content)) return;
    for (auto& st : c.steps)
        for (char ch : c.srcs[0].file.content)
            if (st.verb != "scan" && (ch & 0x80)) return;
    if (!linearizable(hist, c.srcs[0].file.content, rest)) {
        std::string d = "no sequential order of the calls explains their results; input " + quote(c.srcs[0].file.content) + ":";
        for (auto& e : hist)
            d += " [T" + std::to_string(e.thread) + " " + std::to_string(e.inv) + ".." + std::to_string(e.ret) + " " + e.st.verb + " " + e.st.arg + " -> " +
                 (e.st.verb == "getc" ? std::to_string(e.ch) : e.st.verb[0] == 'f' ? quote(e.line) : e.out.str()) + "]";
        violate("not-atomic", d + " remaining " + quote(rest));
    }
}

// --------------------------------------------------------------- P07 locks
static void gen_P07(Rng& r, Case& c)
{
    bool thr = r.chance(0.4);
    const OpDef& op = r.chance(0.35) ? pick_op(r, OF_THROWS, OF_WIDE) : pick_op(r, 0, OF_WIDE);
    const OpDef& txt = r.chance(0.3) ? pick_op(r, 0, OF_WIDE) : op;
    SrcSpec s;
    s.kind = S_FILE;
    s.file.content = gen_text(r, txt.tmpl, 0.15) + gen_tail(r);
    s.file.events = gen_delivery(r, s.file.content.size());
    gen_buffering(r, s.file);
    if (r.chance(0.15)) s.file.events.insert(s.file.events.begin() + static_cast<long>(r.below(s.file.events.size() + 1)), Ev{'X', EIO});
    c.srcs = {s};
    c.steps.push_back({0, 0, "scan", op.id, 0});
    c.set("depth", r.chance(0.5) ? 0 : r.range(1, 2));
    if (r.chance(0.4)) c.set("allocfail", r.range(0, 12));
    else if (op.flags & OF_THROWS) c.set("scanthrow", r.range(0, 2));
    else if (r.chance(0.2)) c.set("ungetcfail", r.range(0, 4));
    if (r.chance(0.15)) c.set("stdin", 1);
    if (thr) {
        int n = r.range(1, 2);
        for (int t = 1; t <= n; ++t) {
            int k = r.range(1, 3);
            for (int i = 0; i < k; ++i) {
                if (r.chance(0.5)) c.steps.push_back({t, 0, "getc", "", 0});
                else c.steps.push_back({t, 0, "scan", pick_op(r, 0, OF_WIDE | OF_REGEX).id, 0});
            }
        }
        gen_sched(r, c);
    }
}
static bool really_locked(FILE* f)
{
    bool locked = false;
    std::thread([&] {
        if (__real_ftrylockfile(f) != 0)
            locked = true;
        else
            __real_funlockfile(f);
    }).join();
    return locked;
}
static void exec_P07(Case& c)
{
    SimFile sf;
    sf.open(c.srcs.at(0).file);
    const OpDef* op0 = nullptr;
    for (auto& s : c.steps)
        if (s.thread == 0 && s.verb == "scan") op0 = &get_op(s.arg);
    if (!op0) return;
    const OpDef& op = *op0;
    long depth = c.par("depth", 0);
    bool others = false;
    int nt = 1;
    for (auto& s : c.steps) {
        nt = std::max(nt, s.thread + 1);
        if (s.thread) others = true;
    }
    // warm up lazily created state so that the k-th allocation is the k-th of a normal scan
    ref_run(op, c.srcs[0].file.content);
    Outcome out;
    long d0 = 0, d1 = 0, mind = 0;
    auto main_body = [&] {
        for (long i = 0; i < depth; ++i) flockfile(sf.f);
        if (depth) probe(PR_CALLER_LOCKED);
        d0 = lock_depth(sf.f);
        lock_mark(sf.f);
        g_scanner_calls = 0;
        g_scanner_throw_at = c.par("scanthrow", -1);
        if (c.par("ungetcfail", -1) >= 0) ungetc_fail_after(c.par("ungetcfail", -1));
        alloc_window_begin(c.par("allocfail", -1), false);
        out = file_run(op, sf.f, c.par("stdin", 0));
        alloc_window_end();
        ungetc_fail_after(-1);
        g_scanner_throw_at = -1;
        d1 = lock_depth(sf.f);
        mind = lock_min_depth(sf.f);
        sync_point("after-scan");
        for (long i = 0; i < depth; ++i) flockfile(sf.f), funlockfile(sf.f);
        for (long i = 0; i < depth; ++i) funlockfile(sf.f);
    };
    std::vector<HEv> hist(c.steps.size());
    if (!others)
        main_body();
    else {
        std::vector<std::function<void()>> b;
        b.push_back(main_body);
        for (int t = 1; t < nt; ++t)
            b.push_back([&, t] {
                for (size_t i = 0; i < c.steps.size(); ++i)
                    if (c.steps[i].thread == t) stream_op(sf, c.steps[i], hist[i]);
            });
        run_sched(c, b);
    }
    ev("P07 %s -> %s depth %ld->%ld min %ld", op.id.c_str(), out.str().c_str(), d0, d1, mind);
    check_deferred();
    std::string w = "op " + op.id + " on " + quote(c.srcs[0].file.content) + " ended with " + out.str() + ": ";
    if (d1 != d0) violate("lock-leak", w + "caller held the stream lock " + std::to_string(d0) + " times before and " + std::to_string(d1) + " times after");
    if (mind < d0) violate("lock-dropped", w + "the caller's lock was given up during the scan");
    if (really_locked(sf.f)) violate("lock-leak", w + "the stream is still locked afterwards");
    if (out.code == -3) probe(PR_ALLOC_THROWN);
    if (out.code == -1) violate("exception", w);
}

// =============================================================== P08 independent sources
static void gen_P08(Rng& r, Case& c)
{
    int nt = r.range(2, 4);
    bool sameop = r.chance(0.25);
    const OpDef* shared = &pick_op(r, 0, OF_THROWS);
    // otherwise often operations that go through the same parts of the library
    std::vector<const OpDef*> family;
    const bool svonly = !sameop && r.chance(0.06);
    if (svonly) {
        for (auto& o : ops())
            if (o.flags & OF_SVONLY) family.push_back(&o);
    }
    else if (!sameop && r.chance(0.7)) {
        const bool loc = r.chance(0.25);
        const unsigned kinds = OF_LOCALE | OF_CHRONO | OF_REGEX | OF_NESTED | OF_WIDE;
        for (auto& o : ops()) {
            if (o.flags & (OF_THROWS | OF_SVONLY)) continue;
            if (loc ? (o.flags & OF_LOCALE) != 0
                    : (o.flags & kinds) == (shared->flags & kinds) && ((o.flags & kinds & ~unsigned{OF_WIDE}) || o.id[o.flags & OF_WIDE ? 2 : 0] == shared->id[o.flags & OF_WIDE ? 2 : 0]))
                family.push_back(&o);
        }
    }
    int si = 0;
    for (int t = 0; t < nt; ++t) {
        int k = r.range(1, 2);
        for (int i = 0; i < k; ++i) {
            const OpDef& op = sameop ? *shared : !family.empty() ? *r.pick(family) : pick_op(r, 0, OF_THROWS);
            SrcSpec s;
            s.kind = svonly || r.chance(0.3) ? S_SV : static_cast<Src>(r.range(S_SV, S_RANGE2));
            if ((op.flags & OF_WIDE) && s.kind == S_FILE) s.kind = S_RANGE;
            s.file.content = gen_text(r, op.tmpl, 0.15) + gen_tail(r);
            if (s.kind == S_FILE) {
                s.file.events = gen_delivery(r, s.file.content.size());
                gen_buffering(r, s.file);
            }
            c.srcs.push_back(s);
            c.steps.push_back({t, si++, "scan", op.id, 0});
        }
    }
    gen_sched(r, c);
    c.set("preempts", r.range(1, 16));
    if (r.chance(0.4)) c.set("dense", 1);
}
static Outcome any_run(const OpDef& op, const SrcSpec& s, SimFile& sf, RangeCtl* ctl)
{
    if (s.kind == S_SV) return ref_run(op, s.file.content);
    if (s.kind == S_FILE || s.kind == S_STDIN) {
        if (op.flags & OF_WIDE) return ref_run(op, s.file.content);
        Outcome o = file_run(op, sf.f, s.kind == S_STDIN);
        if (o.ok) o.consumed = static_cast<long>(s.file.content.size()) - static_cast<long>(drain(sf.f).size());
        return o;
    }
    return range_run(op, s.kind, s.file.content, ctl);
}
static void exec_P08(Case& c)
{
    size_t n = c.steps.size();
    std::vector<Outcome> got(n);
    std::vector<RangeCtl> ctl(n);
    std::vector<std::unique_ptr<SimFile>> files;
    for (auto& st : c.steps) {
        files.push_back(std::make_unique<SimFile>());
        auto& s = c.srcs.at(static_cast<size_t>(st.src));
        if (s.kind == S_FILE) files.back()->open(s.file);
    }
    int nt = 0;
    for (auto& s : c.steps) nt = std::max(nt, s.thread + 1);
    std::vector<std::function<void()>> b;
    for (int t = 0; t < nt; ++t)
        b.push_back([&, t] {
            for (size_t i = 0; i < n; ++i)
                if (c.steps[i].thread == t)
                    got[i] = any_run(get_op(c.steps[i].arg), c.srcs[static_cast<size_t>(c.steps[i].src)], *files[i], &ctl[i]);
        });
    run_sched(c, b);
    check_deferred();
    for (size_t i = 0; i < n; ++i) {
        auto& s = c.srcs[static_cast<size_t>(c.steps[i].src)];
        const OpDef& op = get_op(c.steps[i].arg);
        SimFile sf;
        if (s.kind == S_FILE) sf.open(s.file);
        RangeCtl rc;
        Outcome want = any_run(op, s, sf, &rc);
        ev("P08 T%d %s -> %s", c.steps[i].thread, op.id.c_str(), got[i].str().c_str());
        if (got[i].code == -1) violate("exception", "op " + op.id + " on " + quote(s.file.content) + ": " + got[i].str());
        if (!(got[i] == want))
            violate("interference", "op " + op.id + " '" + op.fmt + "' on " + src_names[s.kind] + " " + quote(s.file.content) + ": got " + got[i].str() + " while other threads were scanning, " + want.str() + " alone");
    }
}

// =============================================================== P09 locale isolation
static const char* const locs[] = {"C", "de_DE.UTF-8", "fr_FR.UTF-8", "fi_FI.UTF-8", "tr_TR.UTF-8", "ja_JP.UTF-8", "hi_IN", "en_US.UTF-8", "pl_PL.UTF-8", "de_DE", "ru_RU.KOI8-R", "de_CH.UTF-8"};
static void gen_P09(Rng& r, Case& c)
{
    const OpDef& op = pick_op(r, 0, r.chance(0.85) ? OF_LOCALE : 0);
    SrcSpec s;
    s.kind = static_cast<Src>(r.range(S_SV, S_RANGE2));
    if ((op.flags & OF_WIDE) && s.kind == S_FILE) s.kind = S_RANGE;
    s.file.content = gen_text(r, op.tmpl, 0.15) + gen_tail(r);
    if (s.kind == S_FILE) {
        s.file.events = gen_delivery(r, s.file.content.size());
        gen_buffering(r, s.file);
    }
    c.srcs.push_back(s);
    c.steps.push_back({0, 0, "scan", op.id, 0});
    size_t nl = sizeof locs / sizeof *locs;
    c.set("loc0", static_cast<long>(r.below(nl)));
    c.set("mode", static_cast<long>(r.below(3)));      // 0 setlocale, 1 std::locale::global, 2 both kinds
    if (r.chance(0.3)) c.set("uselocale", static_cast<long>(r.below(nl)));
    if (r.chance(0.2)) c.set("allocfail", r.range(0, 8));
    int k = r.range(0, 4);
    for (int i = 0; i < k; ++i) c.steps.push_back({1, 0, r.chance(0.7) ? "setloc" : "observe", "", static_cast<long>(r.below(nl))});
    gen_sched(r, c);
    c.set("preempts", r.range(1, 10));
}
static std::string global_state()
{
    std::string s = setlocale(LC_ALL, nullptr);
    s += "|" + std::locale().name();
    const char* tz = getenv("TZ");
    s += std::string("|") + (tz ? tz : "(unset)");
    return s;
}
static void apply_loc(long mode, long i)
{
    size_t nl = sizeof locs / sizeof *locs;
    const char* n = locs[static_cast<size_t>(i) % nl];
    fault_fired(F_LOCALE_CHANGE);
    if (mode == 0 || (mode == 2 && (i & 1)))
        setlocale(LC_ALL, n);
    else
        std::locale::global(std::locale(n));
}
static void exec_P09(Case& c)
{
    auto& s = c.srcs.at(0);
    const OpDef* opp = nullptr;
    for (auto& st : c.steps)
        if (st.verb == "scan") opp = &get_op(st.arg);
    if (!opp) return;
    const OpDef& op = *opp;
    setlocale(LC_ALL, "C");
    std::locale::global(std::locale::classic());
    Outcome want;
    {
        SimFile sf;
        if (s.kind == S_FILE) sf.open(s.file);
        RangeCtl rc;
        want = any_run(op, s, sf, &rc);
    }
    long mode = c.par("mode", 0);
    apply_loc(mode, c.par("loc0", 0));
    locale_t ul = nullptr;
    if (c.par("uselocale", -1) >= 0) ul = newlocale(LC_ALL_MASK, locs[c.par("uselocale", 0) % static_cast<long>(sizeof locs / sizeof *locs)], nullptr);
    std::string expect = global_state();
    Outcome got;
    bool thread_locale_kept = true, changed = false, in_scan = false;
    std::string bad;
    SimFile sf;
    if (s.kind == S_FILE) sf.open(s.file);
    RangeCtl rc;
    std::vector<std::function<void()>> b;
    b.push_back([&] {
        locale_t old = ul ? uselocale(ul) : nullptr;
        locale_t before = uselocale(nullptr);
        in_scan = true;
        alloc_window_begin(c.par("allocfail", -1), false);
        try {
            got = any_run(op, s, sf, &rc);
        }
        catch (const std::bad_alloc&) {   // building the source itself
            got.code = -3;
        }
        alloc_window_end();
        in_scan = false;
        thread_locale_kept = uselocale(nullptr) == before;
        if (old) uselocale(old);
    });
    b.push_back([&] {
        for (auto& st : c.steps) {
            if (st.thread != 1) continue;
            sync_point("env");
            std::string now = global_state();
            if (now != expect && bad.empty()) bad = "expected " + expect + ", found " + now;
            if (st.verb == "setloc") {
                if (in_scan) probe(PR_LOCALE_MID_SCAN);
                apply_loc(mode, st.n);
                expect = global_state();
                changed = true;
            }
        }
    });
    run_sched(c, b);
    std::string now = global_state();
    setlocale(LC_ALL, "C");
    std::locale::global(std::locale::classic());
    if (ul) freelocale(ul);
    check_deferred();
    std::string w = "op " + op.id + " '" + op.fmt + "' on " + src_names[s.kind] + " " + quote(s.file.content) + " (locale " + locs[c.par("loc0", 0) % static_cast<long>(sizeof locs / sizeof *locs)] + (changed ? ", changed by another thread" : "") + "): ";
    ev("P09 %s -> %s", op.id.c_str(), got.str().c_str());
    if (!bad.empty()) violate("locale-touched", w + "process locale changed during the scan: " + bad);
    if (now != expect) violate("locale-touched", w + "process state after the scan is " + now + ", expected " + expect);
    if (!thread_locale_kept) violate("locale-touched", w + "the calling thread's locale was changed");
    if (got.code == -3 && c.par("allocfail", -1) >= 0) return;
    if (c.par("allocfail", -1) >= 0) return;
    if (!(got == want)) violate("locale-dependent", w + "got " + got.str() + ", " + want.str() + " in the C locale");
}

// =============================================================== P10 exceptions
static void gen_P10(Rng& r, Case& c)
{
    bool thr = r.chance(0.2);
    const OpDef& op = thr ? pick_op(r, OF_THROWS, 0) : pick_op(r, 0, 0);
    const OpDef& txt = r.chance(0.1) ? pick_op(r, 0, 0) : op;
    SrcSpec s;
    s.kind = static_cast<Src>(r.range(S_SV, S_RANGE2));
    if ((op.flags & OF_WIDE) && s.kind == S_FILE) s.kind = S_RANGE;
    s.file.content = gen_text(r, txt.tmpl, 0.1);
    if (r.chance(0.3)) s.file.content += std::string(static_cast<size_t>(r.range(1, 60)), 'a');   // beyond small-string sizes
    s.file.content += gen_tail(r);
    if (s.kind == S_FILE) {
        s.file.events = gen_delivery(r, s.file.content.size());
        gen_buffering(r, s.file);
    }
    c.srcs.push_back(s);
    c.steps.push_back({0, 0, "scan", op.id, 0});
    if (r.chance(0.3)) c.set("all", 1);
    c.set("kinds", r.range(1, 7));
}
static void exec_P10(Case& c)
{
    auto& s = c.srcs.at(0);
    const OpDef& op = get_op(c.steps.at(0).arg);
    const std::string& text = s.file.content;
    auto once = [&](long alloc_at, long iter_at, long scan_at, AllocReport& rep, Outcome& out, const Outcome* want) {
        SimFile sf;
        if (s.kind == S_FILE) sf.open(s.file);
        RangeCtl rc;
        rc.throw_at = iter_at;
        g_scanner_calls = 0;
        g_scanner_throw_at = scan_at;
        std::string rest;
        // prepare sources outside the accounting window
        std::wstring wtext;
        if (op.flags & OF_WIDE) wtext = widen(text);
        std::deque<char> dq;
        std::deque<wchar_t> wdq;
        std::list<char> ls;
        std::list<wchar_t> wls;
        if (s.kind == S_LIST) {
            ls.assign(text.begin(), text.end());
            wls.assign(wtext.begin(), wtext.end());
        }
        if (s.kind == S_DEQUE) {
            dq.assign(text.begin(), text.end());
            wdq.assign(wtext.begin(), wtext.end());
        }
        SimRange<char> rg{text.data(), text.data() + text.size(), &rc};
        SimRange2<char> rg2{text.data(), text.data() + text.size(), &rc};
        SimRange<wchar_t> wrg{wtext.data(), wtext.data() + wtext.size(), &rc};
        SimRange2<wchar_t> wrg2{wtext.data(), wtext.data() + wtext.size(), &rc};
        SrcArg a;
        WSrcArg wa;
        a.sv = text; a.f = sf.f; a.dq = &dq; a.ls = &ls; a.rg = &rg; a.rg2 = &rg2;
        wa.sv = wtext; wa.dq = &wdq; wa.ls = &wls; wa.rg = &wrg; wa.rg2 = &wrg2;
        bool ok = false;
        int code = 0;
        long consumed = -1;
        char vals[512] = {0};
        char exc[128] = {0};
        alloc_window_begin(alloc_at, c.par("all", 0));
        try {
            Outcome o = (op.flags & OF_WIDE) ? op.wrun(op, s.kind, wa) : op.run(op, s.kind, a);
            ok = o.ok;
            code = o.code;
            consumed = o.consumed;
            snprintf(vals, sizeof vals, "%s", o.vals.c_str());
        }
        catch (const std::bad_alloc&) { code = -3; }
        catch (const SimThrow&) { code = -2; }
        catch (const std::exception& e) { code = -1; snprintf(exc, sizeof exc, "%s", e.what()); }
        rep = alloc_window_end();
        g_scanner_throw_at = -1;
        ++g_stats->scans;
        out = Outcome{};
        out.ok = ok; out.code = ok ? 0 : code; out.vals = vals; out.consumed = consumed; out.exc = exc;
        std::string w = "op " + op.id + " '" + op.fmt + "' on " + src_names[s.kind] + " " + quote(text) + " with fault at (alloc " + std::to_string(alloc_at) + ", iterator " + std::to_string(iter_at) + ", scanner " + std::to_string(scan_at) + "): " + out.str() + ": ";
        ev("P10 %ld %ld %ld -> %s live=%ld allocs=%ld", alloc_at, iter_at, scan_at, out.str().c_str(), rep.live, rep.allocs);
        if (s.kind == S_FILE) {
            if (lock_depth(sf.f) != 0 || really_locked(sf.f)) violate("lock-leak", w + "stream still locked");
            rest = drain(sf.f);
            if (rest.size() > text.size() || text.compare(text.size() - rest.size(), rest.size(), rest) != 0)
                violate("stream-corrupted", w + "remaining stream " + quote(rest) + " is not a suffix of the input");
            if (out.ok) out.consumed = static_cast<long>(text.size() - rest.size());
        }
        if (rep.live != 0) violate("leak", w + std::to_string(rep.live) + " allocation(s) not released");
        bool faulted = rep.fired || rc.thrown || out.code == -2 || out.code == -3;
        if (code == -1) violate("exception", w + exc);
        if (out.code == -3) probe(PR_ALLOC_THROWN);
        if (want) {
            if (out.ok ? !(out.vals.substr(0, 500) == want->vals.substr(0, 500) && want->ok && out.consumed == want->consumed)
                       : (!faulted && !(out == *want)))
                violate("wrong-result", w + "expected " + want->str() + " or an exception/error");
        }
    };
    AllocReport rep;
    Outcome want, out;
    // warm-up twice: lazily created process-wide state is not a leak
    {
        Outcome o = (s.kind == S_FILE || s.kind == S_SV) ? Outcome{} : Outcome{};
        (void)o;
        SimFile sf;
        if (s.kind == S_FILE) sf.open(s.file);
        RangeCtl rc;
        any_run(op, s, sf, &rc);
        g_scanner_calls = 0;
        SimFile sf2;
        if (s.kind == S_FILE) sf2.open(s.file);
        RangeCtl rc2;
        any_run(op, s, sf2, &rc2);
    }
    once(-1, -1, -1, rep, want, nullptr);
    long allocs = rep.allocs, scans = g_scanner_calls;
    RangeCtl cnt;
    long kinds = c.par("kinds", 7);
    long lo = c.par("from", 0), hi = c.par("to", 1000000);
    AllocReport r2;
    if (kinds & 1)
        for (long k = std::max<long>(0, lo); k < std::min<long>(std::min<long>(allocs, 60), hi); ++k) {
            once(k, -1, -1, r2, out, &want);
            once(-1, -1, -1, r2, out, &want);
        }
    if ((kinds & 2) && (s.kind == S_RANGE || s.kind == S_RANGE2))
        for (long k = std::max<long>(0, lo); k < std::min<long>(std::min<long>(static_cast<long>(text.size()), 40), hi); ++k) {
            once(-1, k, -1, r2, out, &want);
            once(-1, -1, -1, r2, out, &want);
        }
    if ((kinds & 4) && scans > 0)
        for (long k = std::max<long>(0, lo); k < std::min<long>(std::min<long>(scans, 20), hi); ++k) {
            once(-1, -1, k, r2, out, &want);
            once(-1, -1, -1, r2, out, &want);
        }
    check_deferred();
}

// =============================================================== P11 nested scans
static void gen_P11(Rng& r, Case& c)
{
    int which = r.range(0, 3);
    if (which < 2) {
        gen_file_case(r, c, OF_NESTED, 0);
        return;
    }
    const OpDef& op = pick_op(r, OF_NESTED | (r.chance(0.15) ? OF_WIDE : 0), 0);
    SrcSpec s;
    s.kind = static_cast<Src>(r.range(S_DEQUE, S_RANGE2));
    s.file.content = gen_text(r, op.tmpl, 0.25) + gen_tail(r);
    c.srcs.push_back(s);
    c.steps.push_back({0, 0, "scan", op.id, -1});
}
static void exec_P11(Case& c)
{
    // the contiguous result itself against an independent account (composition of the
    // parts, iostream extractions by a std::istringstream)
    {
        const OpDef& op = get_op(c.steps.at(0).arg);
        const std::string& text = c.srcs.at(0).file.content;
        Outcome want;
        if (valid_utf8(text) && flat_model(op.id, text, want)) {
            Outcome got = ref_run(op, text);
            ev("P11 flat %s -> %s", op.id.c_str(), got.str().c_str());
            if (got.ok != want.ok || (got.ok && (got.vals != want.vals || got.consumed != want.consumed)))
                violate("wrong-nesting", "op " + op.id + " '" + op.fmt + "' on " + quote(text) + ": got " + got.str() + ", reading its parts one after another gives " + (want.ok ? want.str() : std::string("an error")));
        }
    }
    if (c.srcs.at(0).kind == S_FILE) exec_file_diff(c);
    else exec_P02(c);
}

// =============================================================== P12 exactly-once records
// day and month names of fi_FI
static const char* const fi_days[] = {"sunnuntai", "maanantai", "tiistai", "keskiviikko", "torstai", "perjantai", "lauantai"};
static const char* const fi_months[] = {"tammikuu", "helmikuu", "maaliskuu", "huhtikuu", "toukokuu", "kes\xc3\xa4kuu", "hein\xc3\xa4kuu", "elokuu", "syyskuu", "lokakuu", "marraskuu", "joulukuu"};
static const struct { const char* op; const char* sig; } rec_ops[] = {
    {"i", "i"}, {"i.val", "i"}, {"f", "f"}, {"f.val", "f"}, {"s", "s"}, {"s.val", "s"}, {"ii", "ii"}, {"iii", "iii"}, {"iiii", "iiii"},
    {"ff", "ff"}, {"fi", "fi"}, {"ss", "ss"}, {"sss", "sss"}, {"si", "si"}, {"is", "is"}, {"isf", "isf"}, {"fs", "fs"}, {"sf", "sf"}, {"b", "b"}, {"bb", "bb"},
    {"ws", "w"}, {"wsi", "wi"}, {"wss", "ws"}, {"n.two", "is"}, {"n.i.two.i", "iisi"}, {"ll", "i"}, {"i.d", "i"}, {"s.s", "s"},
    {"f.L.de", "D"}, {"f.L.en", "E"}, {"i.L.de", "K"}, {"i.L.en", "J"}, {"dc.L", "TU"},
    {"in.i", "i"}, {"in.s", "s"}, {"in.sif", "sif"}, {"in.wb", "wb"}, {"in.loc", "fs"}, {"in.s.val", "s"}, {"in.f.val", "f"}, {"in.v.is", "is"},
    {"ch.iii", "iii"}, {"ch.iii.val", "iii"}, {"ch.sss", "sss"}, {"ch.sss.val", "sss"}, {"ch.isf", "isf"}, {"ch.fsi.val", "fsi"}, {"ch.fbw", "fbw"}};
static void gen_P12(Rng& r, Case& c)
{
    int n = r.range(1, 12);
    std::string content;
    size_t nops = sizeof rec_ops / sizeof *rec_ops;
    SrcSpec s;
    s.kind = r.chance(0.6) ? S_FILE : static_cast<Src>(r.range(S_SV, S_RANGE2));
    auto sep = [&] { return r.chance(0.8) ? (r.chance(0.7) ? " " : "\n") : (r.chance(0.5) ? "  " : r.chance(0.5) ? "\t\n " : "\xe2\x80\xa8"); };
    for (int i = 0; i < n; ++i) {
        if (r.chance(0.5)) {
            std::string id, text, want;
            gen_rec(r, s.kind == S_SV, id, text, want);
            if (!content.empty()) content += sep();
            content += text;
            c.steps.push_back({0, 0, "rv", id + ":" + hex(text) + ":" + hex(want), 0});
            continue;
        }
        auto& o = rec_ops[r.below(nops)];
        Step st{0, 0, "rec", o.op, 0};
        std::string exp;
        for (const char* p = o.sig; *p; ++p) {
            if (!content.empty()) content += sep();
            if (*p == 'i') content += (r.chance(0.3) ? "-" : "") + std::to_string(r.chance(0.3) ? r.below(2000000000) : r.below(1000));
            else if (*p == 'f') {
                char b[64];
                double d = (static_cast<double>(r.below(2000001)) - 1000000) / (1 << r.below(20));
                snprintf(b, sizeof b, "%.17g", d);
                content += b;
            }
            else if (*p == 'b') content += r.chance(0.5) ? "true" : "false";
            else if (*p == 'T') content += fi_days[r.below(7)];
            else if (*p == 'U') content += fi_months[r.below(12)];
            else if (strchr("DEJK", *p)) {   // written according to a locale
                const bool de = *p == 'D' || *p == 'K';
                std::string d = std::to_string(r.below(r.chance(0.5) ? 100000 : 999999999));
                if (r.chance(0.7))
                    for (long q = static_cast<long>(d.size()) - 3; q > 0; q -= 3) d.insert(static_cast<size_t>(q), 1, de ? '.' : ',');
                if ((*p == 'D' || *p == 'E') && r.chance(0.7)) d += (de ? "," : ".") + std::to_string(r.below(10000));
                content += (r.chance(0.3) ? "-" : "") + d;
            }
            else content += *p == 'w' || r.chance(0.4) ? gen_text(r, "%w", 0) : gen_text(r, "%s", 0);
        }
        c.steps.push_back(st);
    }
    if (r.chance(0.5)) content += "\n";
    s.file.content = content;
    if (s.kind == S_FILE) {
        s.file.events = gen_delivery(r, content.size());
        gen_buffering(r, s.file);
    }
    if (s.kind == S_FILE && r.chance(0.2)) c.set("stdin", 1);
    c.srcs = {s};
}
// independent reading of the next field
// (malformed is set when the text does not hold such a field: minimised cases can)
static size_t space_at(const std::string& t, size_t i)
{
    if (i >= t.size()) return 0;
    unsigned char ch = static_cast<unsigned char>(t[i]);
    if (ch == ' ' || (ch >= 9 && ch <= 13)) return 1;
    if (t.compare(i, 3, "\xe2\x80\xa8") == 0) return 3;
    return 0;
}
static bool next_field(const std::string& t, size_t& at, char kind, std::string& shown, bool& malformed)
{
    auto is_sp = [&](size_t i) { return space_at(t, i); };
    while (size_t k = is_sp(at)) at += k;
    if (at >= t.size()) return false;
    size_t e = at;
    while (e < t.size() && !is_sp(e)) ++e;
    std::string tok = t.substr(at, e - at);
    at = e;
    char b[64];
    {
        const char* digits = "0123456789";
        size_t d = tok[0] == '-' ? 1 : 0;
        size_t n = tok.find_first_not_of(digits, d);
        bool ok = true;
        if (kind == 'i') ok = n == std::string::npos && tok.size() > d && tok.size() < 18 && std::llabs(strtoll(tok.c_str(), nullptr, 10)) <= 2147483647;
        else if (kind == 'f') {
            char* end = nullptr;
            (void)strtod(tok.c_str(), &end);
            ok = !*end && isdigit(static_cast<unsigned char>(tok[d < tok.size() ? d : 0]));
        }
        else if (kind == 'b') ok = tok == "true" || tok == "false";
        else if (strchr("DEJK", kind)) {
            const bool de = kind == 'D' || kind == 'K';
            const char group = de ? '.' : ',', point = de ? ',' : '.';
            std::string whole = tok.substr(d), frac;
            if (size_t q = whole.find(point); q != std::string::npos) {
                frac = whole.substr(q + 1);
                whole.resize(q);
                ok = (kind == 'D' || kind == 'E') && !frac.empty() && frac.find_first_not_of(digits) == std::string::npos;
            }
            size_t first = whole.find(group);
            if (first == std::string::npos) ok = ok && !whole.empty() && whole.find_first_not_of(digits) == std::string::npos;
            else {
                ok = ok && first >= 1 && first <= 3 && (whole.size() - first) % 4 == 0;
                for (size_t i = 0; i < whole.size(); ++i) ok = ok && (i >= first && (i - first) % 4 == 0 ? whole[i] == group : isdigit(static_cast<unsigned char>(whole[i])) != 0);
            }
        }
        else ok = valid_utf8(tok);
        if (!ok) malformed = true;
    }
    switch (kind) {
        case 'i': shown = std::to_string(strtoll(tok.c_str(), nullptr, 10)); break;
        case 'f': shown = show_float(static_cast<long double>(strtod(tok.c_str(), nullptr))); break;
        case 'b': shown = tok == "true" ? "1" : "0"; break;
        case 'D': case 'E': case 'J': case 'K': {
            const bool de = kind == 'D' || kind == 'K';
            std::string n;
            for (char ch : tok) {
                if (ch == (de ? '.' : ',')) continue;
                n += ch == ',' ? '.' : ch;
            }
            shown = kind == 'D' || kind == 'E' ? show_float(static_cast<long double>(strtod(n.c_str(), nullptr))) : std::to_string(strtoll(n.c_str(), nullptr, 10));
            break;
        }
        case 'T': case 'U':
            shown = "?";
            for (int i = 0; i < (kind == 'T' ? 7 : 12); ++i)
                if (tok == (kind == 'T' ? fi_days[i] : fi_months[i])) shown = kind == 'T' ? "w" + std::to_string(i) : "m" + std::to_string(i + 1);
            if (shown == "?") malformed = true;
            break;
        case 'w': {
            shown = "L";
            for (wchar_t ch : widen(tok)) shown += std::to_string(static_cast<unsigned long>(ch)) + ".";
            break;
        }
        default: {
            shown = "\"";
            for (unsigned char ch : tok) {
                if (ch >= 0x20 && ch < 0x7f && ch != '\\' && ch != '"') shown += static_cast<char>(ch);
                else { snprintf(b, sizeof b, "\\x%02x", ch); shown += b; }
            }
            shown += "\"";
        }
    }
    return true;
}
static void exec_P12(Case& c)
{
    auto& s = c.srcs.at(0);
    const std::string& t = s.file.content;
    SimFile sf;
    if (s.kind == S_FILE) sf.open(s.file);
    size_t model = 0, pos = 0;
    bool malformed = false;
    RangeCtl rc;
    auto one = [&](const OpDef& op) {
        uint64_t st0 = g_steps;
        Outcome o;
        if (s.kind == S_FILE) o = file_run(op, sf.f, c.par("stdin", 0));
        else if (s.kind == S_SV) o = ref_run(op, std::string_view(t).substr(pos));
        else o = range_run(op, s.kind, std::string_view(t).substr(pos), &rc);
        if (o.ok && s.kind != S_FILE) pos += static_cast<size_t>(o.consumed);
        if (g_steps - st0 > (op.flags & OF_REGEX ? 500000 : 80000) + 4000 * t.size()) violate("no-progress", "op " + op.id + " took " + std::to_string(g_steps - st0) + " steps");
        return o;
    };
    for (auto& st : c.steps) {
        if (st.verb == "rv") {
            size_t c1 = st.arg.find(':'), c2 = st.arg.rfind(':');
            if (c1 == c2) return;
            const OpDef& op = get_op(st.arg.substr(0, c1));
            std::string text = unhex(st.arg.substr(c1 + 1, c2 - c1 - 1)), want = unhex(st.arg.substr(c2 + 1));
            size_t m0 = model;
            while (size_t k = space_at(t, model)) model += k;
            // (a minimised case may not hold the value any more)
            if (t.compare(model, text.size(), text) != 0) return;
            model += text.size();
            if (model < t.size() && !space_at(t, model)) return;
            Outcome o = one(op);
            ev("P12 %s -> %s", op.id.c_str(), o.str().c_str());
            std::string w = std::string("op ") + op.id + " '" + op.fmt + "' on " + src_names[s.kind] + " with " + quote(t.substr(m0)) + " left: ";
            if (!o.ok) violate("value-lost", w + "got " + o.str() + ", written values were " + want);
            if (o.vals != want) violate("wrong-value", w + "got " + o.vals + ", written values were " + want);
            continue;
        }
        const char* sig = nullptr;
        for (auto& ro : rec_ops)
            if (st.arg == ro.op) sig = ro.sig;
        if (!sig) continue;
        const OpDef& op = get_op(st.arg);
        Outcome o = one(op);
        ev("P12 %s -> %s", op.id.c_str(), o.str().c_str());
        std::string want;
        bool have = true;
        size_t m0 = model;
        std::vector<std::string> f;
        for (const char* p = sig; *p && have; ++p) {
            std::string x;
            have = next_field(t, model, *p, x, malformed);
            f.push_back(x);
        }
        if (malformed) return;
        if (have) {
            if (st.arg == "n.two") want = f[0] + "/" + f[1] + " ";
            else if (st.arg == "n.i.two.i") want = f[0] + " " + f[1] + "/" + f[2] + " " + f[3] + " ";
            else if (st.arg == "dc.L") want = "dc" + f[1] + f[0] + " ";
            else
                for (auto& x : f) want += x + " ";
        }
        std::string w = std::string("op ") + op.id + " '" + op.fmt + "' on " + src_names[s.kind] + " with " + quote(t.substr(m0)) + " left: ";
        if (have) {
            if (!o.ok) violate("value-lost", w + "got " + o.str() + ", written values were " + want);
            if (o.vals != want) violate("wrong-value", w + "got " + o.vals + ", written values were " + want);
        }
        else {
            if (o.ok) violate("value-invented", w + "got " + o.str() + " although not enough values were written");
            if (op.flags & OF_CHAIN) return;   // its first calls may have succeeded
            model = m0;
        }
    }
    // everything left must still be there, exactly once; then end of input
    for (int i = 0; i < 200; ++i) {
        std::string x;
        size_t m0 = model;
        bool have = next_field(t, model, 's', x, malformed);
        if (malformed) return;
        Outcome o = one(get_op("s"));
        ev("P12 tail -> %s", o.str().c_str());
        if (have && (!o.ok || o.vals != x + " ")) violate(o.ok ? "wrong-value" : "value-lost", "word scan with " + quote(t.substr(m0)) + " left: got " + o.str() + ", expected " + x);
        if (!have) {
            Outcome e = ref_run(get_op("s"), "");
            if (o.ok || o.code != e.code) violate("bad-end", "at the end of input: got " + o.str() + ", expected end of input");
            break;
        }
    }
    if (rc.oob) violate("read-past-end", "iterator used past the end");
    check_deferred();
}

// =============================================================== P13 interactive streams
struct OutCookie {
    std::string data;
    uint64_t first_read_data = 0;
    long fail_after = -1;
};
static ssize_t out_write(void* c, const char* b, size_t n)
{
    auto* o = static_cast<OutCookie*>(c);
    if (o->fail_after >= 0 && static_cast<long>(o->data.size()) >= o->fail_after) {
        fault_fired(F_WRITE_FAIL);
        return 0;
    }
    o->data.append(b, n);
    return static_cast<ssize_t>(n);
}
Outcome prompt_int(const char* msg);      // ops_prompt.cpp
Outcome prompt_ss(const char* msg);

static void gen_P13(Rng& r, Case& c)
{
    int n = r.range(1, 4);
    std::string content;
    bool pr = r.chance(0.2);
    for (int i = 0; i < n; ++i) {
        if (pr) {
            bool two = r.chance(0.5);
            content += gen_text(r, two ? "%s% %s" : "%i", 0.02) + "\n";
            c.steps.push_back({0, 0, "prompt", two ? "ss" : "i", r.range(0, 40)});
            continue;
        }
        const OpDef& op = pick_op(r, 0, OF_WIDE | OF_NOLINE | OF_REGEX);
        std::string t = gen_text(r, op.tmpl, 0.05);
        content += t + "\n";
        c.steps.push_back({0, 0, r.chance(0.3) ? "input" : "scan", op.id, 0});
    }
    content += "end\n";
    SrcSpec s;
    s.kind = S_FILE;
    s.file.content = content;
    // delivery: whole lines, or pieces of lines
    bool lines = r.chance(0.6);
    size_t at = 0;
    while (at < content.size()) {
        size_t nl = content.find('\n', at);
        size_t len = nl + 1 - at;
        if (!lines && len > 1) len = static_cast<size_t>(r.range(1, static_cast<int>(len)));
        s.file.events.push_back({'D', static_cast<int>(len)});
        at += len;
    }
    gen_buffering(r, s.file);
    c.srcs = {s};
    if (r.chance(0.1)) c.set("outfail", r.range(0, 3));
    if (r.chance(0.5)) c.set("tight", 1);
}
static void exec_P13(Case& c)
{
    SimFile sf;
    sf.open(c.srcs.at(0).file);
    const std::string& all = c.srcs[0].file.content;
    size_t pos = 0;
    for (auto& st : c.steps) {
        std::string rest = all.substr(pos);
        if (!valid_utf8(rest)) break;
        bool is_prompt = st.verb == "prompt";
        const OpDef op = get_op(is_prompt ? (st.arg == "ss" ? "ss" : "i") : st.arg);
        Outcome want = ref_run(op, rest);
        if (!want.ok) {
            // a failing scan may look arbitrarily far; its result is judged by P01/P04
            break;
        }
        size_t nl = all.find('\n', pos + static_cast<size_t>(want.consumed));
        if (nl == std::string::npos) break;
        // the delivered lines decide the result only if no continuation changes it
        // (a scanner that takes "as many values as there are" has to ask for more)
        auto decided = [&](size_t len) {
            std::string given = rest.substr(0, len);
            if (!valid_utf8(given)) return false;
            for (const char* ext : {"", "1", "a", " 1", ",1", ";1", ":1", "=1", "-1", "\"x\"", "(a)", ")", "]", "[1]", ".", "\n", "\n1", "\xc3\xa4", "e1", "p1", "x1", "inity", "nan", "(x)", "day", "sday", "nesday", "rsday", "urday", "uary", "ruary", "ch", "il", "e", "y", "ust", "tember", "ober", "ember"}) {
                Outcome o = ref_run(op, given + ext);
                if (!o.ok || o.vals != want.vals || o.consumed != want.consumed) return false;
            }
            return true;
        };
        size_t need = nl + 1 - pos;
        if (!decided(need)) break;
        // the producer may stop as soon as the fields are complete and terminated: after one
        // more character, or at once where a field or literal has a fixed length
        // (a char can end a scan in the middle of a character, and finding the end of the
        // invalid rest takes the next character)
        size_t from = static_cast<size_t>(want.consumed);
        bool inside = from < rest.size() && (static_cast<unsigned char>(rest[from]) & 0xc0) == 0x80;
        if (c.par("tight", 0) && !inside) {
            bool fx = op.id == "c" || op.id == "c.val" || op.id == "c.c" || op.id == "cc" ||
                      (!op.fmt.empty() && op.fmt.back() > ' ' && op.fmt.back() != '}');
            bool peeks = op.id.rfind("n.peek", 0) == 0;   // that scanner looks further on purpose
            for (size_t len = from + (fx ? 0 : 1); !peeks && len < need && len < from + 8; ++len)
                if ((fx || !isalpha(static_cast<unsigned char>(rest[len - 1]))) && decided(len)) need = len;
        }
        sf.allow_until = pos + need;
        fault_fired(F_STALL);
        Outcome got;
        OutCookie oc;
        FILE* of = nullptr;
        if (is_prompt) {
            cookie_io_functions_t io{};
            io.write = out_write;
            of = fopencookie(&oc, "w", io);
            oc.fail_after = c.par("outfail", -1);
            FILE *so = stdout, *si = stdin;
            std::string msg(static_cast<size_t>(st.n), '?');
            if (!msg.empty()) msg.back() = ' ';
            long r0 = sf.reads;
            size_t seen_at_read = ~size_t{0};
            stdout = of;
            stdin = sf.f;
            sf.spec.stall_is_violation = true;
            static OutCookie* s_oc;
            static size_t s_seen;
            s_oc = &oc;
            s_seen = ~size_t{0};
            g_read_hook = [] {
                if (s_seen == ~size_t{0}) s_seen = s_oc->data.size();
            };
            got = guarded([&] { return st.arg == "ss" ? prompt_ss(msg.c_str()) : prompt_int(msg.c_str()); });
            g_read_hook = nullptr;
            seen_at_read = s_seen;
            stdout = so;
            stdin = si;
            fclose(of);
            if (c.par("outfail", -1) < 0) {
                if (oc.data != msg) violate("prompt-text", "prompt wrote " + quote(oc.data) + " instead of " + quote(msg));
                if (sf.reads > r0 && seen_at_read != msg.size())
                    violate("prompt-order", "the first read was issued when only " + std::to_string(seen_at_read) + " of " + std::to_string(msg.size()) + " prompt characters had been written");
            }
        }
        else
            got = file_run(op, sf.f, st.verb == "input");
        ev("P13 %s %s -> %s", st.verb.c_str(), op.id.c_str(), got.str().c_str());
        if (sf.overread)
            violate("needless-read", "op " + op.id + " '" + op.fmt + "' asked for more input although " + quote(all.substr(pos, need)) + " had been delivered and decides its result " + want.str());
        probe(PR_STALLED_OK);
        if (got.ok != want.ok || got.vals != want.vals)
            violate("wrong-value", "op " + op.id + " with " + quote(rest) + " next: got " + got.str() + ", expected " + want.str());
        pos += static_cast<size_t>(want.consumed);
    }
    check_deferred();
}

// =============================================================== P14 termination and memory safety
static bool recursive_op(const OpDef& op) { return op.id.find("deep") != std::string::npos || op.id.find("tree") != std::string::npos; }
static void gen_P14(Rng& r, Case& c)
{
    const bool svonly = r.chance(0.05);
    const OpDef& op = pick_op(r, svonly ? OF_SVONLY : 0, r.chance(0.95) ? OF_REGEX : 0);
    SrcSpec s;
    s.kind = svonly ? S_SV : static_cast<Src>(r.range(S_SV, S_RANGE2));
    if ((op.flags & OF_WIDE) && s.kind == S_FILE) s.kind = S_RANGE;
    std::string t;
    switch (r.below(4)) {
        case 0: {   // raw bytes
            int n = r.range(0, 40);
            for (int i = 0; i < n; ++i) t += static_cast<char>(r.chance(0.5) ? r.below(256) : " 019-+xe.,:[](){}\"a\xff\xc3\x80"[r.below(22)]);
            break;
        }
        case 1: {   // long runs
            static const std::vector<std::string> u = {"1", " ", "a", "\xff", "\xc3\xa4", "0", "-", "*", "(", "[", "[1,", "1;", "\n", "\xe2\x80", "9,", "1 ", "\"", "\x80"};
            std::string x = r.pick(u);
            int n = r.range(1, r.chance(0.03) && !recursive_op(op) && !(op.flags & OF_REGEX) ? 20000 : 300);
            for (int i = 0; i < n; ++i) t += x;
            if (r.chance(0.5)) t = gen_text(r, op.tmpl, 0.2) + t;
            if (r.chance(0.3)) t += gen_text(r, op.tmpl, 0.2);
            break;
        }
        default: t = gen_text(r, op.tmpl, 0.9); mutate_text(r, t, r.range(1, 8)); t += gen_tail(r);
    }
    s.file.content = t;
    if (s.kind == S_FILE) {
        s.file.events = gen_delivery(r, t.size());
        gen_buffering(r, s.file);
        int k = r.range(0, 3);
        for (int i = 0; i < k; ++i)
            s.file.events.insert(s.file.events.begin() + static_cast<long>(r.below(s.file.events.size() + 1)), r.chance(0.5) ? Ev{'X', EAGAIN} : Ev{'E', 0});
        if (r.chance(0.3)) s.file.events.push_back({'P', r.chance(0.5) ? EIO : EAGAIN});
        if (r.chance(0.1)) s.file.events.insert(s.file.events.begin(), {'P', EIO});
        if (r.chance(0.15)) c.set("stdin", 1);
    }
    c.srcs.push_back(s);
    c.steps.push_back({0, 0, "scan", op.id, 0});
}
static void exec_P14(Case& c)
{
    auto& s = c.srcs.at(0);
    const OpDef& op = get_op(c.steps.at(0).arg);
    SimFile sf;
    if (s.kind == S_FILE) sf.open(s.file);
    RangeCtl rc;
    const uint64_t fixed = op.flags & OF_REGEX ? 500000 : 100000;   // std::regex translates the pattern each time
    const uint64_t each = recursive_op(op) ? 9000 : 3000;
    uint64_t lim = fixed + each * s.file.content.size();
    uint64_t st0 = g_steps, mv0 = g_moved;
    set_step_limit(g_steps + lim);
    Outcome o;
    if (s.kind == S_FILE) o = file_run(op, sf.f, c.par("stdin", 0));
    else if (s.kind == S_SV) {
        std::unique_ptr<char[]> exact(new char[s.file.content.size() + (s.file.content.empty() ? 1 : 0)]);   // no slack for overreads
        memcpy(exact.get(), s.file.content.data(), s.file.content.size());
        o = ref_run(op, std::string_view(exact.get(), s.file.content.size()));
    }
    else o = range_run(op, s.kind, s.file.content, &rc);
    step_limit_off();
    uint64_t used = g_steps - st0, moved = g_moved - mv0;
    ev("P14 %s %s %s -> %s steps=%lu reads=%ld", src_names[s.kind], op.id.c_str(), quote(s.file.content).c_str(), o.str().c_str(), static_cast<unsigned long>(used), sf.reads);
    // long input: what is spent for each character must not grow
    const uint64_t n = s.file.content.size();
    if (used > fixed + (n > 2000 && !recursive_op(op) ? 1000 : each) * n)
        violate("work", "op " + op.id + " executed " + std::to_string(used) + " basic blocks for " + std::to_string(n) + " characters");
    if (moved > 200000 + (n > 2000 && !recursive_op(op) ? 600 : 3000) * n)
        violate("work", "op " + op.id + " allocated and copied " + std::to_string(moved) + " bytes for " + std::to_string(n) + " characters");
    if (rc.oob) violate("read-past-end", "op " + op.id + " on " + quote(s.file.content) + ": iterator used past the end");
    if (o.code == -1) violate("exception", "op " + op.id + " on " + quote(s.file.content) + ": " + o.str());
    if (s.kind == S_FILE && sf.reads > static_cast<long>(s.file.content.size()) + 200)
        violate("no-progress", "op " + op.id + " issued " + std::to_string(sf.reads) + " reads for " + std::to_string(s.file.content.size()) + " characters");
    check_deferred();
}

const PropDef props[] = {
    {"P01", 24, gen_P01, exec_file_diff, 0},
    {"P02", 24, gen_P02, exec_P02, 0},
    {"P03", 12, gen_P03, exec_history, 0},
    {"P04", 12, gen_P04, exec_history, 0},
    {"P05", 12, gen_P05, exec_history, 0},
    {"P06", 3, gen_P06, exec_P06, 0},
    {"P07", 6, gen_P07, exec_P07, 0},
    {"P08", 2, gen_P08, exec_P08, 0},
    {"P09", 3, gen_P09, exec_P09, 0},
    {"P10", 4, gen_P10, exec_P10, 0},
    {"P11", 24, gen_P11, exec_P11, 0},
    {"P12", 8, gen_P12, exec_P12, 0},
    {"P13", 12, gen_P13, exec_P13, 0},
    {"P14", 24, gen_P14, exec_P14, 0},
    {nullptr, 0, nullptr, nullptr, 0}};
// how often each operation succeeds on text made for it
void op_rates()
{
    for (auto& o : ops()) {
        if (o.flags & OF_SVONLY) continue;
        Rng r(1);
        int ok = 0;
        for (int i = 0; i < 200; ++i) ok += ref_run(o, gen_text(r, o.tmpl, 0)).ok;
        printf("%d\t%s\t%s\n", ok, o.id.c_str(), o.fmt.c_str());
    }
}
const PropDef* find_prop(const std::string& id)
{
    for (const PropDef* p = props; p->id; ++p)
        if (id == p->id) return p;
    return nullptr;
}
}  // namespace sim
