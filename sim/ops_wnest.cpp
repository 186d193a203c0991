// User scanners on wide sources.
#include "ops.h"
namespace sim {
struct WPair { int a = 0, b = 0; };
struct WRetry { int kind = 0; int n = 0; std::wstring s; };
struct WMulti { std::vector<int> v; };
struct WIS { int n = 0; std::wstring w; };
inline std::wistream& operator>>(std::wistream& is, WIS& x) { return is >> x.n >> x.w; }
template <> struct Show<WPair> { static void go(std::string& o, const WPair& p) { show(o, p.a); o += ':'; show(o, p.b); } };
template <> struct Show<WRetry> { static void go(std::string& o, const WRetry& p) { show(o, p.kind); o += '/'; show(o, p.n); o += '/'; show(o, p.s); } };
template <> struct Show<WMulti> { static void go(std::string& o, const WMulti& p) { show(o, p.v); } };
template <> struct Show<WIS> { static void go(std::string& o, const WIS& p) { show(o, p.n); o += '/'; show(o, p.w); } };
struct WPlainParse {
    template <class C>
    constexpr auto parse(C& c) -> typename C::iterator { return c.begin(); }
};
}  // namespace sim
#define SIM_WSCANNER(T)                                                                     \
    template <> struct scn::scanner<sim::T, wchar_t> : sim::WPlainParse {                   \
        template <class Ctx>                                                                \
        auto scan(sim::T& v, Ctx& ctx) const -> scn::scan_expected<typename Ctx::iterator>; \
    };                                                                                      \
    template <class Ctx>                                                                    \
    auto scn::scanner<sim::T, wchar_t>::scan(sim::T& v, Ctx& ctx) const -> scn::scan_expected<typename Ctx::iterator>
SIM_WSCANNER(WPair)
{
    sim::scanner_tick();
    auto r = scn::scan<int, int>(ctx.range(), L"{}:{}");
    if (!r) return scn::unexpected(r.error());
    std::tie(v.a, v.b) = r->values();
    return r->begin();
}
SIM_WSCANNER(WRetry)
{
    sim::scanner_tick();
    if (auto r = scn::scan<int, int>(ctx.range(), L"{}-{}")) {
        v.kind = 1;
        v.n = std::get<0>(r->values());
        return r->begin();
    }
    auto r = scn::scan<std::wstring>(ctx.range(), L"{}");
    if (!r) return scn::unexpected(r.error());
    v.kind = 3;
    v.s = r->value();
    return r->begin();
}
SIM_WSCANNER(WMulti)
{
    sim::scanner_tick();
    auto r = scn::scan<int>(ctx.range(), L"{}");
    if (!r) return scn::unexpected(r.error());
    v.v.push_back(r->value());
    auto it = r->begin();
    for (int i = 0; i < 8; ++i) {
        auto r2 = scn::scan_value<int>(r->range());
        if (!r2) break;
        v.v.push_back(r2->value());
        it = r2->begin();
        r = std::move(r2);
    }
    return it;
}
template <> struct scn::scanner<sim::WIS, wchar_t> : scn::basic_istream_scanner<wchar_t> {};
namespace sim {
void reg_wnest()
{
    using R = Reg;
    R::wadd<WPair>("wn.pair", L"{}", "%i:%i", OF_NESTED);
    R::wadd<int, WPair, int>("wn.i.pair.i", L"{} {} {}", "%i% %i:%i% %i", OF_NESTED);
    R::wadd<WRetry, WRetry>("wn.retry2", L"{} {}", "%V% %V", OF_NESTED);
    R::wadd<WMulti, std::wstring>("wn.multi.s", L"{} {}", "%i% %i% %i% %l", OF_NESTED);
    R::wadd<WIS>("wn.is", L"{}", "%i% %w", OF_NESTED | OF_GLOBALLOC);
    R::wadd<int, WIS, int>("wn.i.is.i", L"{} {} {}", "%i% %i% %w% %i", OF_NESTED | OF_GLOBALLOC);
}
}  // namespace sim
