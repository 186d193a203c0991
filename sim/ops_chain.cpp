// Several calls in a row, each on the range returned by the one before, the way a
// reading loop is written.
#include "ops.h"
namespace sim {
namespace {
template <class T, class R>
auto chain_one(const char* fmt, R&& rng)
{
    if constexpr (std::is_same_v<std::decay_t<R>, FILE*>) {
        return *fmt ? scn::scan<T>(rng, scn::runtime_format(fmt)) : scn::scan_value<T>(rng);
    }
    else
        return *fmt ? scn::scan<T>(rng, scn::runtime_format(fmt)) : scn::scan_value<T>(rng);
}
template <class S, class It>
long chain_pos(const S& src, const It& it)
{
    using U = std::decay_t<S>;
    if constexpr (std::is_same_v<U, std::string_view> || std::is_same_v<U, std::deque<char>> || std::is_same_v<U, std::list<char>>)
        return static_cast<long>(std::distance(src.begin(), it));
    else
        return static_cast<long>(it.p - src.b);
}
template <class T0, class T1, class T2, class S>
Outcome chain3(const char* fmt, S& src)
{
    Outcome o;
    auto fail = [&](const auto& r) {
        o.ok = false;
        o.vals.clear();
        o.code = static_cast<int>(r.error().code());
        return o;
    };
    auto r0 = chain_one<T0>(fmt, src);
    if (!r0) return fail(r0);
    show(o.vals, r0->value());
    o.vals += ' ';
    if constexpr (std::is_same_v<std::decay_t<S>, FILE*>) {
        auto r1 = chain_one<T1>(fmt, r0->file());
        if (!r1) return fail(r1);
        show(o.vals, r1->value());
        o.vals += ' ';
        auto r2 = chain_one<T2>(fmt, r1->file());
        if (!r2) return fail(r2);
        show(o.vals, r2->value());
        o.vals += ' ';
    }
    else {
        auto r1 = chain_one<T1>(fmt, r0->range());
        if (!r1) return fail(r1);
        show(o.vals, r1->value());
        o.vals += ' ';
        auto r2 = chain_one<T2>(fmt, r1->range());
        if (!r2) return fail(r2);
        show(o.vals, r2->value());
        o.vals += ' ';
        o.consumed = chain_pos(src, r2->begin());
    }
    o.ok = true;
    return o;
}
template <class T0, class T1, class T2>
Outcome run_chain(const OpDef& op, Src k, const SrcArg& a)
{
    const char* fmt = op.fmt.c_str();
    switch (k) {
        case S_SV: {
            std::string_view sv = a.sv;
            return chain3<T0, T1, T2>(fmt, sv);
        }
        case S_STDIN:
        case S_FILE: {
            FILE* f = k == S_STDIN ? stdin : a.f;
            return chain3<T0, T1, T2>(fmt, f);
        }
        case S_DEQUE: return chain3<T0, T1, T2>(fmt, *a.dq);
        case S_LIST: return chain3<T0, T1, T2>(fmt, *a.ls);
        case S_RANGE: return chain3<T0, T1, T2>(fmt, *a.rg);
        case S_RANGE2: return chain3<T0, T1, T2>(fmt, *a.rg2);
        default: return {};
    }
}
template <class T0, class T1, class T2>
void add_chain(const char* id, const char* fmt, const char* tmpl)
{
    OpDef d;
    d.id = id;
    d.fmt = fmt;
    d.tmpl = tmpl;
    d.flags = OF_CHAIN;
    d.run = &run_chain<T0, T1, T2>;
    ops().push_back(d);
}
}  // namespace
void reg_chain()
{
    using S = std::string;
    add_chain<int, int, int>("ch.iii", "{}", "%_%i% %i% %i");
    add_chain<int, int, int>("ch.iii.val", "", "%_%i% %i% %i");
    add_chain<S, S, S>("ch.sss", "{}", "%_%w% %w% %w");
    add_chain<S, S, S>("ch.sss.val", "", "%_%w% %w% %w");
    add_chain<int, S, double>("ch.isf", "{}", "%i% %w% %f");
    add_chain<double, S, int>("ch.fsi.val", "", "%f% %w% %i");
    add_chain<double, bool, std::wstring>("ch.fbw", "{}", "%f% %b% %w");
    add_chain<S, S, S>("ch.lines", "{:[^\n]}\n", "%w% %w\n%w\n%s% %w\n");
    add_chain<char, char32_t, char>("ch.chars", "{}", "%c%w%c");
}
}  // namespace sim
