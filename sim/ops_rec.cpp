// Record fields whose written form is known exactly (P12); also picked by the other checks.
#include "ops.h"
namespace sim {
void reg_rec()
{
    using R = Reg;
    using S = std::string;
    using DC = scn::datetime_components;
    R::add<signed char>("r.i8", " {}", "%_%i");
    R::add<short>("r.i16", " {}", "%_%i");
    R::add<int>("r.i32", " {}", "%_%i");
    R::add<long long>("r.i64", " {}", "%_%I");
    R::add<unsigned char>("r.u8", " {}", "%_%u");
    R::add<unsigned short>("r.u16", " {}", "%_%u");
    R::add<unsigned>("r.u32", " {}", "%_%u");
    R::add<unsigned long long>("r.u64", " {}", "%_%u");
    R::add<int>("r.x", " {:x}", "%_%x");
    R::add<unsigned long long>("r.x64", " {:x}", "%_%x");
    R::add<int>("r.o", " {:o}", "%_%o");
    R::add<unsigned>("r.b", " {:b}", "%_%1%1");
    R::add<long long>("r.base", " {:i}", "%_%j");
    R::add<float>("r.f32", " {}", "%_%f");
    R::add<double>("r.f64", " {}", "%_%f");
    R::add<long double>("r.f80", " {}", "%_%f");
    R::add<double>("r.e", " {:e}", "%_%f");
    R::add<double>("r.fx", " {:f}", "%_%f");
    R::add<double>("r.a", " {:a}", "%_%a");
    R::add<float>("r.a32", " {:a}", "%_%a");
    R::add<bool>("r.bt", " {:s}", "%_%b");
    R::add<bool>("r.bn", " {:i}", "%_%1");
    R::add<bool, bool>("r.bb", " {} {}", "%_%b% %1");
    R::add<char>("r.c", " {}", "%_%c");
    R::add<char, char>("r.cc", " {}{}", "%_%c%c");
    R::add<wchar_t>("r.wc", " {}", "%_%w");
    R::add<char32_t>("r.c32", " {}", "%_%w");
    R::add<std::string_view, int>("r.vi", " {} {}", "%_%w% %i", OF_REGEX);
    R::add<std::string_view, std::string_view>("r.vset", " {:[^=]}={}", "%_%l=%w", OF_REGEX);
    R::add<std::string_view>("r.vc", " {:.5c}", "%_%l%l%l%l%l", OF_REGEX);
    R::add<std::wstring>("r.ws", " {}", "%_%w");
    R::add<S, S>("r.p", " {:.2}{:.3}", "%_%w%w");
    R::add<int, int>("r.ip", " {:.3}{}", "%_%u%u");
    R::add<S, int>("r.set", " {:[a-z]}{}", "%_%l%u");
    R::add<S, S>("r.setn", " {:[^=;]}={:[^;]};", "%_%l=%w;", OF_NOLINE);
    R::add<S, S>("r.cls", " {:[a-zA-Z]}{:[0-9]}", "%_%l%u");
    R::add<int, int>("r.lit", " ({},{})", "%_(%i,%i)", OF_NOLINE);
    R::add<int, S>("r.kv", " k={};v={}", "%_k=%i;v=%w");
    R::add<int, S>("r.ulit", " größe={}→{}", "%_größe=%i→%w");
    R::add<wchar_t>("r.wcd", " {:d}", "%_%i");
    R::add<char>("r.cd", " {:d}", "%_%i");
    R::add<S, int>("r.sc", " {:.4c}{}", "%_%w%w%i");
    R::add<int, int, int>("r.ids", " {2}/{0}/{1}", "%_%i/%i/%i");
    R::add<int>("r.esc", " {{{}}}", "%_{%i}", OF_NOLINE);
    R::add<int>("r.fill", " {:*>6}", "%_*%u");
    R::add<DC>("r.dceb", " {:%e %b}", "%_%2% %M", OF_CHRONO);
    R::add<int>("r.lfill", " {:_<8}", "%_%u__");
    R::add<void*>("r.ptr", " {}", "%_0x%x");
    R::add<scn::discard<int>, int>("r.disc", " {} {}", "%_%i% %i");
    R::add<std::vector<int>>("r.vec", " {}", "%_[%i,%_%i]", OF_NESTED);
    R::add<std::vector<double>>("r.vecf", " {}", "%_[%f,%_%f]", OF_NESTED);
    R::add<std::set<int>>("r.seti", " {}", "%_{%i,%_%i}", OF_NESTED);
    R::add<std::map<int, int>>("r.map", " {}", "%_{%i:%_%i,%_%i:%i}", OF_NESTED);
    R::add<std::pair<int, double>>("r.pair", " {}", "%_(%i,%_%f)", OF_NESTED);
    R::add<std::tuple<int, unsigned, long long>>("r.tuple", " {}", "%_(%i,%_%u,%_%i)", OF_NESTED);
    R::add<std::vector<std::vector<int>>>("r.vv", " {}", "%_[[%i,%i],%_[%i],%_[]]", OF_NESTED);
    R::add<DC>("r.dc", " {:%Y-%m-%dT%H:%M:%S}", "%_%Y-%2-%2T%2:%2:%2", OF_CHRONO);
    R::add<DC>("r.dcz", " {:%Y-%m-%dT%H:%M:%S%z}", "%_%Y-%2-%2T%2:%2:%2%z", OF_CHRONO);
    R::add<DC, int>("r.dcZ", " {:%H:%M %Z} {}", "%_%2:%2% %Z% %i", OF_CHRONO);
    R::add<DC>("r.dcFT", " {:%F %T}", "%_%Y-%2-%2% %2:%2:%2", OF_CHRONO);
    R::add<DC>("r.dcFR", " {:%FT%R}", "%_%Y-%2-%2T%2:%2", OF_CHRONO);
    R::add<DC>("r.dcab", " {:%a %b}", "%_%A% %M", OF_CHRONO);
    R::add<DC>("r.dcAB", " {:%A, %B %Y}", "%_%A,% %M% %Y", OF_CHRONO);
    R::add<DC>("r.dcr", " {:%r}", "%_%2:%2:%2% %P", OF_CHRONO);
    R::add<DC>("r.dcIp", " {:%I:%M %p}", "%_%2:%2% %P", OF_CHRONO);
    R::add<DC>("r.dcj", " {:%Y/%j}", "%_%Y/%3", OF_CHRONO);
    R::add<DC>("r.dcD", " {:%D}", "%_%2/%2/%2", OF_CHRONO);
    R::add<DC>("r.dcCy", " {:%C%y-%m}", "%_%2%2-%2", OF_CHRONO);
    R::add<DC>("r.dcu", " {:%u}", "%_%1", OF_CHRONO);
    R::add<DC>("r.dcw", " {:%w}", "%_%1", OF_CHRONO);
    R::add<std::tm>("r.tm", " {:%Y-%m-%d %H:%M:%S}", "%_%Y-%2-%2% %2:%2:%2", OF_CHRONO);
    R::add<scn::year_month_day>("r.ymd", " {:%Y-%m-%d}", "%_%Y-%2-%2", OF_CHRONO);
    R::add<scn::weekday, int>("r.wd", " {:%a} {}", "%_%A% %i", OF_CHRONO);
    R::add<scn::regex_matches, int>("r.re", " {:/([a-z]+)=([0-9]+)/} {}", "%_%l=%u% %i", OF_REGEX);
    R::add<S, int>("r.res", " {:/[a-z]+[0-9]/} {}", "%_%l1% %i", OF_REGEX);
}
}  // namespace sim
