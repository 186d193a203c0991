// Calls in a row on the ranges returned, on further kinds of source: vectors, strings,
// arrays, singly linked lists, and subranges. Only the string view is the same as
// elsewhere (it is what the others are compared with).
#include "ops.h"
#include <forward_list>
#include <vector>
namespace sim {
namespace {
template <class T, class C, class R>
auto kind_one(const std::basic_string<C>& fmt, R&& rng)
{
    return fmt.empty() ? scn::scan_value<T>(rng) : scn::scan<T>(rng, scn::runtime_format(fmt));
}
template <class T0, class T1, class C, class S>
Outcome kind2(const std::basic_string<C>& fmt, S& src, size_t total)
{
    Outcome o;
    auto fail = [&](const auto& r) {
        o.ok = false;
        o.vals.clear();
        o.code = static_cast<int>(r.error().code());
        return o;
    };
    auto r0 = kind_one<T0>(fmt, src);
    if (!r0) return fail(r0);
    show(o.vals, r0->value());
    o.vals += ' ';
    if constexpr (std::is_same_v<std::decay_t<S>, FILE*>) {
        auto r1 = kind_one<T1>(fmt, r0->file());
        if (!r1) return fail(r1);
        show(o.vals, r1->value());
        o.vals += ' ';
    }
    else {
        const auto rest = r0->range();
        auto r1 = kind_one<T1>(fmt, rest);
        if (!r1) return fail(r1);
        show(o.vals, r1->value());
        o.vals += ' ';
        using std::begin;
        o.consumed = static_cast<long>(std::distance(begin(src), r1->begin()));
        // the end must be the end of the text
        long left = 0;
        for (auto it = r1->begin(); it != r1->end(); ++it) ++left;
        if (left + o.consumed != static_cast<long>(total)) o.vals += "(wrong end)";
    }
    o.ok = true;
    return o;
}
template <class T0, class T1, size_t N, class C>
bool array2(const std::basic_string<C>& fmt, const std::basic_string<C>& t, Outcome& o)
{
    if (t.size() + 1 != N) return false;
    C buf[N];
    std::copy(t.begin(), t.end(), buf);
    buf[N - 1] = C{};
    o = kind2<T0, T1>(fmt, buf, N - 1);
    return true;
}
template <class T0, class T1, class C, class A>
Outcome kinds(const std::basic_string<C>& fmt, Src k, const A& a)
{
    switch (k) {
        case S_DEQUE: {
            std::vector<C> v(a.dq->begin(), a.dq->end());
            return kind2<T0, T1>(fmt, v, v.size());
        }
        case S_LIST: {
            const std::forward_list<C> l(a.ls->begin(), a.ls->end());
            return kind2<T0, T1>(fmt, l, a.ls->size());
        }
        case S_RANGE: {
            std::basic_string<C> t(a.rg->b, a.rg->e_);
            Outcome o;
            if (array2<T0, T1, 4>(fmt, t, o) || array2<T0, T1, 6>(fmt, t, o) || array2<T0, T1, 8>(fmt, t, o) || array2<T0, T1, 12>(fmt, t, o)) return o;
            return kind2<T0, T1>(fmt, t, t.size());
        }
        case S_RANGE2: {
            const std::deque<C> d(a.rg2->b, a.rg2->e_);
            auto s = scn::ranges::subrange(d.begin(), d.end());
            return kind2<T0, T1>(fmt, s, d.size());
        }
        default: {
            auto sv = a.sv;
            return kind2<T0, T1>(fmt, sv, sv.size());
        }
    }
}
template <class T0, class T1>
Outcome run_kinds(const OpDef& op, Src k, const SrcArg& a)
{
    if (k == S_FILE || k == S_STDIN) {
        FILE* f = k == S_STDIN ? stdin : a.f;
        return kind2<T0, T1>(op.fmt, f, 0);
    }
    return kinds<T0, T1>(op.fmt, k, a);
}
template <class T0, class T1>
Outcome wrun_kinds(const OpDef& op, Src k, const WSrcArg& a)
{
    return kinds<T0, T1>(op.wfmt, k, a);
}
template <class T0, class T1>
void add_kinds(const char* id, const char* fmt, const char* tmpl)
{
    OpDef d;
    d.id = id;
    d.fmt = fmt;
    d.tmpl = tmpl;
    d.flags = OF_CHAIN;
    d.run = &run_kinds<T0, T1>;
    ops().push_back(d);
    d.id += ".W";
    d.wfmt.assign(d.fmt.begin(), d.fmt.end());
    d.flags |= OF_WIDE;
    d.run = nullptr;
    d.wrun = &wrun_kinds<T0, T1>;
    ops().push_back(d);
}
}  // namespace
void reg_kinds()
{
    using S = std::string;
    add_kinds<int, S>("k.is", "{}", "%_%i% %w");
    add_kinds<S, S>("k.ss.val", "", "%_%w% %w");
    add_kinds<double, int>("k.fi", "{}", "%f% %i");
    add_kinds<S, S>("k.lines", "{:[^\n]}\n", "%w% %w\n%w\n");
    add_kinds<std::wstring, char32_t>("k.wU", "{}", "%w% %w");
}
}  // namespace sim
