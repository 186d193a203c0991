// Scans that start from values given by the caller (also with a locale, also one value
// without a format, also through vscan).
#include "ops.h"
namespace sim {
namespace {
template <class T> T start();
template <> int start<int>() { return 99; }
template <> double start<double>() { return -2.5; }
template <> bool start<bool>() { return true; }
template <> std::string start<std::string>() { return "old text which is longer than a short one"; }
template <> std::wstring start<std::wstring>() { return L"old"; }
template <> std::vector<int> start<std::vector<int>>() { return {}; }

enum Way { W_SCAN, W_LOCALE, W_VALUE, W_VSCAN, W_ASSIGN };
template <Way W, class... T, class S>
Outcome init_on(const OpDef& op, S& src)
{
    Outcome o;
    if constexpr (W == W_SCAN) {
        auto r = scn::scan<T...>(src, scn::runtime_format(op.fmt), std::tuple<T...>{start<T>()...});
        finish(o, r, src);
    }
    else if constexpr (W == W_LOCALE) {
        auto r = scn::scan<T...>(named_locale("en_US.UTF-8"), src, scn::runtime_format(op.fmt), std::tuple<T...>{start<T>()...});
        finish(o, r, src);
    }
    else if constexpr (W == W_VALUE) {
        auto r = scn::scan_value<T...>(src, start<T>()...);
        finish(o, r, src);
    }
    else if constexpr (W == W_ASSIGN) {   // into a result variable which is used again
        auto r = scn::make_scan_result<S&, T...>();
        r->values() = std::tuple<T...>{start<T>()...};
        auto q = r;
        r = scn::unexpected(scn::scan_error{scn::scan_error::invalid_scanned_value, "not yet"});
        r = scn::scan<T...>(src, scn::runtime_format(op.fmt));
        q = std::move(r);
        finish(o, q, src);
    }
    else {
        auto r = scn::make_scan_result<S&, T...>();
        r->values() = std::tuple<T...>{start<T>()...};
        scn::fill_scan_result(r, scn::vscan(src, op.fmt, scn::make_scan_args(r->values())));
        finish(o, r, src);
    }
    return o;
}
template <Way W, class... T>
Outcome run_init(const OpDef& op, Src k, const SrcArg& a)
{
    switch (k) {
        case S_SV: {
            std::string_view sv = a.sv;
            return init_on<W, T...>(op, sv);
        }
        case S_STDIN:
        case S_FILE: {
            FILE* f = k == S_STDIN ? stdin : a.f;
            return init_on<W, T...>(op, f);
        }
        case S_DEQUE: return init_on<W, T...>(op, *a.dq);
        case S_LIST: return init_on<W, T...>(op, *a.ls);
        case S_RANGE: return init_on<W, T...>(op, *a.rg);
        case S_RANGE2: return init_on<W, T...>(op, *a.rg2);
        default: return {};
    }
}
template <Way W, class... T>
void add_init(const char* id, const char* fmt, const char* tmpl, unsigned flags = 0)
{
    OpDef d;
    d.id = id;
    d.fmt = fmt;
    d.tmpl = tmpl;
    d.flags = flags;
    d.run = &run_init<W, T...>;
    ops().push_back(d);
}
}  // namespace
void reg_init()
{
    using S = std::string;
    add_init<W_SCAN, int>("in.i", "{}", "%_%i");
    add_init<W_SCAN, S>("in.s", "{}", "%_%s");
    add_init<W_SCAN, S, int, double>("in.sif", "{} {} {}", "%_%w% %i% %f");
    add_init<W_SCAN, std::wstring, bool>("in.wb", "{} {}", "%_%w% %b");
    add_init<W_SCAN, S, S>("in.set", "{:[a-z]} {:[^,]}", "%w% %s,%w");
    add_init<W_SCAN, std::vector<int>>("in.vec", "{}", "[%i, %i,%i]");
    add_init<W_LOCALE, double, S>("in.loc", "{} {}", "%_%f% %w");
    add_init<W_VALUE, S>("in.s.val", "", "%_%s");
    add_init<W_VALUE, double>("in.f.val", "", "%_%f");
    add_init<W_ASSIGN, S, int>("in.as.si", "{} {}", "%_%s% %i");
    add_init<W_ASSIGN, std::wstring, double>("in.as.wf", "{} {}", "%_%w% %f");
    add_init<W_ASSIGN, std::vector<int>>("in.as.vec", "{}", "[%i, %i,%i]");
    add_init<W_VSCAN, int, S>("in.v.is", "{} {}", "%_%i% %w");
}
}  // namespace sim
