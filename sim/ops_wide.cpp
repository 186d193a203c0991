#include "ops.h"
#include <memory>
namespace sim {
void reg_int();
void reg_float();
void reg_str();
void reg_misc();
void reg_nested();
void reg_chain();
void reg_kinds();
void reg_init();
void reg_svint();
void reg_more();
void reg_rec();
void reg_wnest();
void reg_dyn();
static void reg_wide()
{
    using R = Reg;
    using W = std::wstring;
    R::wadd<int>("w.i", L"{}", "%_%i");
    R::wadd<int>("w.i.val", L"", "%_%i");
    R::wadd<int>("w.i.x", L"{:x}", "%_%x");
    R::wadd<int, int>("w.ii", L"{} {}", "%_%i% %i");
    R::wadd<int, int>("w.ii.comma", L"{},{}", "%i,%i");
    R::wadd<double>("w.f", L"{}", "%_%f");
    R::wadd<double, double>("w.ff", L"{} {}", "%f% %f");
    R::wadd<W>("w.s", L"{}", "%_%w");
    R::wadd<W>("w.s.c4", L"{:.4c}", "%w%w");
    R::wadd<W>("w.s.set", L"{:[^,]}", "%w% %w,");
    R::wadd<W, W>("w.ss", L"{} {}", "%w% %w");
    R::wadd<std::string>("w.n", L"{}", "%_%w");
    R::wadd<W, int, double>("w.sif", L"{} {} {}", "%w% %i% %f");
    R::wadd<bool>("w.b", L"{}", "%_%b");
    R::wadd<wchar_t>("w.c", L"{}", "%_%w");
    R::wadd<wchar_t>("w.cc", L"{:x}", "%w");
    R::wadd<int>("w.lit", L"x={};", "x=%i;");
    R::wadd<int>("w.fill", L"{:*^8}", "%*%i%*");
    R::wadd<std::tm>("w.tm", L"{:%Y-%m-%d}", "%Y-%2-%2", OF_CHRONO);
    R::wadd<double>("w.f.L", L"de_DE.UTF-8|{:L}", "%_%D", OF_LOCALE);
    R::wadd<int>("w.i.L", L"en_US.UTF-8|{:L}", "%_%E", OF_LOCALE);
    R::wadd<float>("w.f32", L"{:a}", "%_%a");
    R::wadd<long double>("w.f80", L"{}", "%_%f");
    R::wadd<W>("w.s.val", L"", "%_%w");
    R::wadd<W>("w.s.w6", L"{:>6}", "%_%w");
    R::wadd<W>("w.s.p3", L"{:.3}", "%_%w");
    R::wadd<W, W>("w.kv", L"{:[^=]}={}", "%l=%w");
    R::wadd<unsigned long long>("w.ull", L"{:i}", "%_%j");
    R::wadd<void*>("w.p", L"{}", "%_%p");
    R::wadd<bool, int>("w.bi", L"{} {}", "%b% %i");
    R::wadd<scn::datetime_components>("w.dc", L"{:%H:%M:%S%z}", "%2:%2:%2%z", OF_CHRONO);
    R::wadd<W>("w.re", L"{:/[a-z]+/}", "%l%u", OF_REGEX);
    R::wadd<W>("w.re.w", L"{:/\\w+/}", "%lä%l", OF_REGEX);
    R::wadd<W>("w.re.cls", L"{:/[[:alpha:]]+/}", "%lα%l", OF_REGEX);
    R::wadd<scn::wregex_matches>("w.re.mw", L"{:/(\\w+)(\\W?)/}", "%lä%l", OF_REGEX);
    R::wadd<W>("w.re.esc", L"{:/[a-z]+\\/[0-9]*/}", "%l/%u", OF_REGEX);
    R::wadd<scn::wregex_matches, int>("w.rem", L"{:/([a-z]+)=([0-9]+)?/} {}", "%l=%u% %i", OF_REGEX);
    using V = std::wstring_view;
    R::wadd<V>("w.v", L"{}", "%_%w", OF_REGEX);
    R::wadd<V, int, V>("w.viv", L"{} {} {}", "%_%w% %i% %w", OF_REGEX);
    R::wadd<V>("w.v.set", L"{:[^,]}", "%w% %s,", OF_REGEX);
    R::wadd<V>("w.v.c", L"{:.4c}", "%w%w% %w", OF_REGEX);
    R::wadd<V>("w.v.until", L"{:=<s}", "%w=", OF_REGEX);
    R::wadd<W, W>("w.until", L"{:→<s}{}", "%w→%w");
    R::wadd<std::tm>("w.tm.L", L"de_DE.UTF-8|{:L%x %X}", "%2.%2.%Y% %2:%2:%2", OF_CHRONO | OF_LOCALE);
    R::wadd<scn::datetime_components>("w.dc.LE", L"en_US.UTF-8|{:L%EY-%Om-%Od %OH:%OM:%OS}", "%Y-%2-%2% %2:%2:%2", OF_CHRONO | OF_LOCALE);
    R::wadd<scn::datetime_components>("w.dc.b", L"{:%a %b %e %p %I}", "%A% %M% %2% %P% %2", OF_CHRONO);
}
std::vector<OpDef>& ops()
{
    static std::vector<OpDef>* v = [] { return new std::vector<OpDef>; }();
    static bool init = false;
    if (!init) {
        init = true;
        reg_int();
        reg_float();
        reg_str();
        reg_misc();
        reg_nested();
        reg_chain();
        reg_kinds();
        reg_init();
        reg_svint();
        reg_more();
        reg_rec();
        reg_wnest();
        reg_wide();
        reg_dyn();
    }
    return *v;
}
const OpDef* find_op(const std::string& id)
{
    if (id.rfind("D:", 0) == 0) return find_dyn(id);
    for (auto& o : ops())
        if (o.id == id) return &o;
    return nullptr;
}
static std::map<std::string, std::locale>& locale_map()
{
    static auto* m = new std::map<std::string, std::locale>;
    return *m;
}
// before any thread runs: lookups must not change the map
void preload_locales()
{
    for (auto& o : ops())
        if (o.flags & OF_LOCALE) {
            const bool w = o.flags & OF_WIDE;
            std::string n;
            if (w)
                for (wchar_t c : o.wfmt.substr(0, o.wfmt.find(L'|'))) n += static_cast<char>(c);
            else
                n = o.fmt.substr(0, o.fmt.find('|'));
            locale_map().emplace(n, std::locale(n.c_str()));
        }
}
const std::locale& named_locale(const std::string& n) { return locale_map().at(n); }
}  // namespace sim
