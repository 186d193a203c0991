// Operation templates: one typed scan, runnable on every kind of source. Instrumented.
#pragma once
#include "sim.h"

#include <scn/chrono.h>
#include <scn/istream.h>
#include <scn/ranges.h>
#include <scn/regex.h>
#include <scn/scan.h>
#include <scn/xchar.h>

#include <istream>
#include <locale>
#include <map>
#include <set>
#include <tuple>

namespace sim {

// ------------------------------------------------------------ rendering of values
inline void esc(std::string& o, std::string_view s)
{
    o += '"';
    for (unsigned char c : s) {
        if (c >= 0x20 && c < 0x7f && c != '\\' && c != '"')
            o += static_cast<char>(c);
        else {
            char b[8];
            snprintf(b, sizeof b, "\\x%02x", c);
            o += b;
        }
    }
    o += '"';
}
template <class T, class = void>
struct Show;
template <class T>
void show(std::string& o, const T& v) { Show<T>::go(o, v); }
template <class T>
struct Show<T, std::enable_if_t<std::is_integral_v<T>>> {
    static void go(std::string& o, T v) { o += std::to_string(static_cast<std::conditional_t<std::is_signed_v<T>, long long, unsigned long long>>(v)); }
};
template <class T>
struct Show<T, std::enable_if_t<std::is_floating_point_v<T>>> {
    static void go(std::string& o, T v)
    {
        if (v != v) { o += "nan"; return; }
        o += show_float(static_cast<long double>(v));
    }
};
template <> struct Show<std::string> {
    static void go(std::string& o, const std::string& v) { esc(o, v); }
};
template <> struct Show<std::string_view> {
    static void go(std::string& o, std::string_view v) { esc(o, v); }
};
template <> struct Show<std::wstring_view> {
    static void go(std::string& o, std::wstring_view v)
    {
        o += 'L';
        for (wchar_t c : v) { o += std::to_string(static_cast<unsigned long>(c)); o += '.'; }
    }
};
template <> struct Show<scn::wregex_matches> {
    static void go(std::string& o, const scn::wregex_matches& m)
    {
        o += '<';
        for (auto& x : m) {
            if (x) Show<std::wstring_view>::go(o, x->get()); else o += "none";
            o += '|';
        }
        o += '>';
    }
};
template <> struct Show<std::wstring> {
    static void go(std::string& o, const std::wstring& v)
    {
        o += 'L';
        for (wchar_t c : v) { o += std::to_string(static_cast<unsigned long>(c)); o += '.'; }
    }
};
template <> struct Show<void*> {
    static void go(std::string& o, void* v) { o += std::to_string(reinterpret_cast<uintptr_t>(v)); }
};
template <class T, class A> struct Show<std::vector<T, A>> {
    static void go(std::string& o, const std::vector<T, A>& v) { o += '['; for (auto& x : v) { show(o, x); o += ','; } o += ']'; }
};
template <class T> struct Show<std::set<T>> {
    static void go(std::string& o, const std::set<T>& v) { o += '{'; for (auto& x : v) { show(o, x); o += ','; } o += '}'; }
};
template <class A, class B> struct Show<std::pair<A, B>> {
    static void go(std::string& o, const std::pair<A, B>& v) { o += '('; show(o, v.first); o += ','; show(o, v.second); o += ')'; }
};
template <class A, class B> struct Show<std::map<A, B>> {
    static void go(std::string& o, const std::map<A, B>& v) { o += '{'; for (auto& x : v) { show(o, x.first); o += ':'; show(o, x.second); o += ','; } o += '}'; }
};
template <class... T> struct Show<std::tuple<T...>> {
    static void go(std::string& o, const std::tuple<T...>& v) { o += '('; std::apply([&](auto&... x) { ((show(o, x), o += ';'), ...); }, v); o += ')'; }
};
template <class T> struct Show<scn::discard<T>> { static void go(std::string& o, const scn::discard<T>&) { o += "discard"; } };
template <> struct Show<scn::regex_matches> {
    static void go(std::string& o, const scn::regex_matches& m)
    {
        o += '<';
        for (auto& x : m) {
            if (x) { std::string t(x->get()); esc(o, t); } else o += "none";
            o += '|';
        }
        o += '>';
    }
};
template <> struct Show<std::tm> {
    static void go(std::string& o, const std::tm& t)
    {
        char b[128];
        snprintf(b, sizeof b, "tm%d-%d-%dT%d:%d:%d w%d y%d", t.tm_year, t.tm_mon, t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec, t.tm_wday, t.tm_yday);
        o += b;
    }
};
template <> struct Show<scn::datetime_components> {
    static void go(std::string& o, const scn::datetime_components& d)
    {
        auto f = [&](const char* n, auto& x) { if (x) { o += n; show(o, *x); } };
        o += "dc";
        f("Y", d.year); f("d", d.mday); f("H", d.hour); f("M", d.min); f("S", d.sec); f("f", d.subsec); f("y", d.yday);
        if (d.mon) { o += "m"; show(o, static_cast<unsigned>(*d.mon)); }
        if (d.wday) { o += "w"; show(o, d.wday->c_encoding()); }
        if (d.tz_offset) { o += "z"; show(o, d.tz_offset->count()); }
        if (d.tz_name) { o += "Z"; show(o, *d.tz_name); }
    }
};
template <> struct Show<scn::weekday> { static void go(std::string& o, const scn::weekday& d) { show(o, d.c_encoding()); } };
template <> struct Show<scn::year_month_day> {
    static void go(std::string& o, const scn::year_month_day& d)
    {
        show(o, static_cast<int>(d.year())); o += '-'; show(o, static_cast<unsigned>(d.month())); o += '-'; show(o, static_cast<unsigned>(d.day()));
    }
};

// a view must point into the source
template <class V, class S>
void check_view(std::string& o, const V& v, const S& src)
{
    if constexpr (std::is_same_v<V, S> && (std::is_same_v<V, std::string_view> || std::is_same_v<V, std::wstring_view>)) {
        if (!v.empty() && (v.data() < src.data() || v.data() + v.size() > src.data() + src.size())) o += "(not in the source)";
    }
}
// ------------------------------------------------------------ running one scan
template <class R, class Src>
void finish(Outcome& o, R& r, Src& src)
{
    if (!r) {
        o.ok = false;
        o.code = static_cast<int>(r.error().code());
        return;
    }
    o.ok = true;
    std::apply([&](auto&... v) { ((show(o.vals, v), check_view(o.vals, v, src), o.vals += ' '), ...); }, r->values());
    if constexpr (!std::is_same_v<std::decay_t<Src>, FILE*>) {
        long n = 0;
        using S = std::decay_t<Src>;
        if constexpr (std::is_same_v<S, std::string_view> || std::is_same_v<S, std::wstring_view>)
            n = static_cast<long>(src.size()) - static_cast<long>(r->end() - r->begin());
        else if constexpr (std::is_same_v<S, std::deque<char>> || std::is_same_v<S, std::deque<wchar_t>>)
            n = static_cast<long>(r->begin() - src.begin());
        else if constexpr (std::is_same_v<S, std::list<char>> || std::is_same_v<S, std::list<wchar_t>>)
            n = static_cast<long>(std::distance(src.begin(), r->begin()));
        else
            n = static_cast<long>(r->begin().p - src.b);
        o.consumed = n;
    }
}

const std::locale& named_locale(const std::string& n);

template <class... T, class S>
Outcome scan_on(const OpDef& op, S& src)
{
    Outcome o;
    const std::string& f = op.fmt;
    if (op.flags & OF_LOCALE) {
        auto bar = f.find('|');
        const std::locale& loc = named_locale(f.substr(0, bar));
        std::string f2 = f.substr(bar + 1);
        auto r = scn::scan<T...>(loc, src, scn::runtime_format(f2));
        finish(o, r, src);
    }
    else if (f.empty()) {
        if constexpr (sizeof...(T) == 1) {
            auto r = scn::scan_value<T...>(src);
            finish(o, r, src);
        }
    }
    else {
        auto r = scn::scan<T...>(src, scn::runtime_format(f));
        finish(o, r, src);
    }
    return o;
}

template <class... T>
Outcome run_op(const OpDef& op, Src k, const SrcArg& a)
{
    switch (k) {
        case S_SV: {
            std::string_view sv = a.sv;
            return scan_on<T...>(op, sv);
        }
        case S_FILE: {
            FILE* f = a.f;
            return scan_on<T...>(op, f);
        }
        case S_DEQUE: return scan_on<T...>(op, *a.dq);
        case S_LIST: return scan_on<T...>(op, *a.ls);
        case S_RANGE: return scan_on<T...>(op, *a.rg);
        case S_RANGE2: return scan_on<T...>(op, *a.rg2);
        case S_STDIN: {
            Outcome o;
            if (op.fmt.empty() || (op.flags & OF_LOCALE)) {
                FILE* f = stdin;
                return scan_on<T...>(op, f);
            }
            auto r = scn::input<T...>(scn::runtime_format(op.fmt));
            FILE* f = stdin;
            finish(o, r, f);
            return o;
        }
        default: break;
    }
    return {};
}

template <class... T, class S>
Outcome wscan_on(const OpDef& op, S& src)
{
    Outcome o;
    if (op.flags & OF_LOCALE) {
        auto bar = op.wfmt.find(L'|');
        const std::locale& loc = named_locale(op.fmt.substr(0, bar));
        std::wstring f2 = op.wfmt.substr(bar + 1);
        auto r = scn::scan<T...>(loc, src, scn::runtime_format(f2));
        finish(o, r, src);
    }
    else if (op.wfmt.empty()) {
        if constexpr (sizeof...(T) == 1) {
            auto r = scn::scan_value<T...>(src);
            finish(o, r, src);
        }
    }
    else {
        auto r = scn::scan<T...>(src, scn::runtime_format(op.wfmt));
        finish(o, r, src);
    }
    return o;
}
template <class... T>
Outcome wrun_op(const OpDef& op, Src k, const WSrcArg& a)
{
    switch (k) {
        case S_SV: {
            std::wstring_view sv = a.sv;
            return wscan_on<T...>(op, sv);
        }
        case S_DEQUE: return wscan_on<T...>(op, *a.dq);
        case S_LIST: return wscan_on<T...>(op, *a.ls);
        case S_RANGE: return wscan_on<T...>(op, *a.rg);
        case S_RANGE2: return wscan_on<T...>(op, *a.rg2);
        default: break;
    }
    return {};
}

struct Reg {
    template <class... T>
    static void add(const char* id, const char* fmt, const char* tmpl, unsigned flags = 0)
    {
        OpDef d;
        d.id = id;
        d.fmt = fmt;
        d.tmpl = tmpl;
        d.flags = flags;
        d.run = &run_op<T...>;
        ops().push_back(d);
    }
    template <class... T>
    static void wadd(const char* id, const wchar_t* fmt, const char* tmpl, unsigned flags = 0)
    {
        OpDef d;
        d.id = id;
        d.wfmt = fmt;
        d.fmt.assign(d.wfmt.begin(), d.wfmt.end());
        d.tmpl = tmpl;
        d.flags = flags | OF_WIDE;
        d.wrun = &wrun_op<T...>;
        ops().push_back(d);
    }
};
}  // namespace sim
