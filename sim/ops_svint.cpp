// The string-only integer readers.
#include "ops.h"
namespace sim {
namespace {
template <class T>
Outcome run_si(const OpDef& op, Src k, const SrcArg& a)
{
    Outcome o;
    if (k != S_SV) return o;
    const int base = std::stoi(op.fmt);
    if (base == 1) {   // only allowed on a plain decimal integer which fits
        const bool neg = std::is_signed_v<T> && !a.sv.empty() && a.sv[0] == '-';
        const size_t d = a.sv.size() - neg, max = sizeof(T) == 1 ? 2 : sizeof(T) == 2 ? 4 : sizeof(T) == 4 ? 9 : 18;
        if (d < 1 || d > max || a.sv.find_first_not_of("0123456789", neg) != std::string_view::npos) return o;
        T v = scn::scan_int_exhaustive_valid<T>(a.sv);
        T want = 0;
        for (char c : a.sv.substr(neg)) want = static_cast<T>(want * 10 + (c - '0'));
        if (neg) want = static_cast<T>(-want);
        o.ok = true;
        show(o.vals, v);
        if (v != want) o.vals += " (wrong)";
        o.consumed = static_cast<long>(a.sv.size());
        return o;
    }
    std::string_view sv = a.sv;
    auto r = scn::scan_int<T>(sv, base);
    finish(o, r, sv);
    return o;
}
template <class T>
void add_si(const char* id, const char* base, const char* tmpl)
{
    OpDef d;
    d.id = id;
    d.fmt = base;
    d.tmpl = tmpl;
    d.flags = OF_SVONLY;
    d.run = &run_si<T>;
    ops().push_back(d);
}
}  // namespace
void reg_svint()
{
    add_si<int>("si.i", "10", "%_%i");
    add_si<long long>("si.ll", "10", "%_%i");
    add_si<unsigned char>("si.u8", "10", "%_%2");
    add_si<unsigned>("si.x", "16", "%_%x");
    add_si<int>("si.b0", "0", "%_%x");
    add_si<short>("si.b36", "36", "%_%w");
    add_si<int>("sx.i", "1", "%i");
    add_si<unsigned long>("sx.ul", "1", "%i");
    add_si<signed char>("sx.sc", "1", "%2");
}
}  // namespace sim
