// Further argument types and formats.
#include "ops.h"
namespace sim {
template <> struct Show<scn::tm_with_tz> {
    static void go(std::string& o, const scn::tm_with_tz& t)
    {
        show(o, static_cast<const std::tm&>(t));
        if (t.tz_offset) { o += "z"; show(o, t.tz_offset->count()); }
        if (t.tz_name) { o += "Z"; show(o, *t.tz_name); }
    }
};
template <> struct Show<scn::day> { static void go(std::string& o, const scn::day& d) { show(o, static_cast<unsigned>(d)); } };
template <> struct Show<scn::month> { static void go(std::string& o, const scn::month& d) { show(o, static_cast<unsigned>(d)); } };
template <> struct Show<scn::year> { static void go(std::string& o, const scn::year& d) { show(o, static_cast<int>(d)); } };
template <> struct Show<scn::year_month> {
    static void go(std::string& o, const scn::year_month& d) { show(o, static_cast<int>(d.year())); o += '-'; show(o, static_cast<unsigned>(d.month())); }
};
template <> struct Show<scn::month_day> {
    static void go(std::string& o, const scn::month_day& d) { show(o, static_cast<unsigned>(d.month())); o += '-'; show(o, static_cast<unsigned>(d.day())); }
};
using TP = std::chrono::time_point<std::chrono::system_clock, std::chrono::seconds>;
template <> struct Show<TP> { static void go(std::string& o, const TP& t) { show(o, static_cast<long long>(t.time_since_epoch().count())); } };

void reg_more()
{
    using R = Reg;
    using S = std::string;
    using DC = scn::datetime_components;
    R::add<unsigned char>("uc", "{}", "%_%i");
    R::add<unsigned short>("us", "{:x}", "%_%x");
    R::add<long>("l", "{}", "%_%I");
    R::add<unsigned long>("ul", "{:i}", "%_%j");
    R::add<long long>("ll.o", "{:o}", "%_%o");
    R::add<short>("sh.val", "", "%_%i");
    R::add<unsigned long long>("ull.x", "{:x}", "%_%x");
    R::add<int>("i.X", "{:X}", "%_%x");
    R::add<int>("i.wp", "{:3.5}", "%_%i");
    R::add<int>("i.fillw", "{:0>6}", "000%i");
    R::add<int>("i.esc", "{{{}}}", "{%i}");
    R::add<int>("i.nl", "{}\n", "%i%_\n%_", OF_NOLINE);
    R::add<int, int>("ii.id", "{1}/{0}", "%i/%i");
    R::add<float, long double>("f32f80", "{} {}", "%_%f% %f");
    R::add<float>("f32.a", "{:a}", "%_%a");
    R::add<long double>("f80.a", "{:a}", "%_%a");
    R::add<double>("f.p", "{:.7}", "%_%f");
    R::add<double>("f.fill", "{:*>9}", "%*%f");
    R::add<bool>("b.n", "{:i}", "%_%1");
    R::add<bool, S>("bs", "{} {}", "%b% %w");
    R::add<S>("s.set6", "{:[0-9a-fx-]}", "%_%x");
    R::add<S>("s.set7", "{:[^ \n\t]}", "%w");
    R::add<S>("s.set8", "{:[0-9A-Z]}", "%u%w");
    R::add<S>("s.set9", "{:[à-ÿ]}", "ä%w");
    R::add<S>("s.rj8", "{:>8.8}", "%_%w");
    R::add<S>("s.lj8", "{:<8}", "%w%_");
    R::add<S>("s.ufill", "{:€>6}", "€€%w");
    R::add<std::wstring>("ws.p2", "{:.2}", "%_%w");
    R::add<std::wstring>("ws.w6", "{:6}", "%_%w%_");
    R::add<std::wstring, wchar_t>("wswc", "{} {}", "%w% %w");
    R::add<S, S, S, S, S>("s5", "{} {} {} {} {}", "%w% %w% %s% %w% %l");
    R::add<int, double, S, bool, char, int>("mix6", "{} {} {} {} {} {}", "%i% %f% %w% %b% %c% %i");
    R::add<int, int, int, int, int, int, int, int, int, int, int, int, int, int>("i14", "{} {} {} {} {} {} {} {} {} {} {} {} {} {}",
        "%u% %u% %u% %u% %u% %u% %u% %u% %u% %u% %u% %u% %u% %u");
    R::add<int, int, int, int, int, int, int, int, int, int, int, int, S, S, int, int, int, double>("i18", "{} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {} {}",
        "%u% %u% %u% %u% %u% %u% %u% %u% %u% %u% %u% %u% %w% %w% %u% %u% %u% %f");
    R::add<S>("re.i", "{:/[a-z]+/i}", "%l", OF_REGEX);
    R::add<S>("re.w", "{:/\\w+/}", "%lä%l", OF_REGEX);
    R::add<S>("re.cls", "{:/[[:alpha:]]+[[:punct:]]?/}", "%l%c%l", OF_REGEX);
    R::add<S>("re.b", "{:/[a-z]+\\b/}", "%l%c%l", OF_REGEX);
    R::add<scn::regex_matches>("re.mw", "{:/(\\w+)(\\W?)/}", "%lä%l", OF_REGEX);
    R::add<scn::tm_with_tz>("tz.T", "{:%T%z}", "%2:%2:%2%z", OF_CHRONO);
    R::add<scn::tm_with_tz>("tz.Z", "{:%T %Z}", "%2:%2:%2% %Z", OF_CHRONO);
    R::add<scn::day>("day", "{:%d}", "%2", OF_CHRONO);
    R::add<scn::month>("month", "{:%m}", "%2", OF_CHRONO);
    R::add<scn::month>("month.b", "{:%b}", "%M", OF_CHRONO);
    R::add<scn::year>("year", "{:%Y}", "%Y", OF_CHRONO);
    R::add<scn::year>("year.y", "{:%y}", "%2", OF_CHRONO);
    R::add<scn::year_month>("ym", "{:%Y-%m}", "%Y-%2", OF_CHRONO);
    R::add<scn::month_day>("md", "{:%m/%d}", "%2/%2", OF_CHRONO);
    R::add<scn::year_month_day>("ymd.Cy", "{:%C%y-%m-%d}", "%2%2-%2-%2", OF_CHRONO);
    R::add<TP>("tp", "{:%F %T}", "%Y-%2-%2% %2:%2:%2", OF_CHRONO);
    R::add<DC>("dc.D", "{:%D %r}", "%2/%2/%2% %2:%2:%2% %P", OF_CHRONO);
    R::add<DC>("dc.c", "{:%b %e %X %Y}", "%M% %2% %2:%2:%2% %Y", OF_CHRONO);
    R::add<DC>("dc.cc", "{:%c}", "%A% %M% %2% %2:%2:%2% %Y", OF_CHRONO);
    R::add<DC>("dc.xX", "{:%x %X}", "%2/%2/%Y% %2:%2:%2", OF_CHRONO);
    R::add<DC>("dc.e", "{:%e%n%b%t%y%%}", "%2% %M% %2%%", OF_CHRONO);
    R::add<DC>("dc.u", "{:%H %u}", "%2% %1", OF_CHRONO);
    R::add<DC>("dc.EO", "{:%EY %Od}", "%Y% %2", OF_CHRONO);
    R::add<DC>("dc.L", "fi_FI.UTF-8|{:L%A %B}", "%A% %M", OF_CHRONO | OF_LOCALE);
    R::add<DC>("dc.L.E", "de_DE.UTF-8|{:L%EY-%Om-%Od}", "%Y-%2-%2", OF_CHRONO | OF_LOCALE);
    R::add<DC>("dc.L.Ey", "de_DE.UTF-8|{:L%Ey %EC}", "%2% %2", OF_CHRONO | OF_LOCALE);
    R::add<DC>("dc.L.OT", "en_US.UTF-8|{:L%OH:%OM:%OS}", "%2:%2:%2", OF_CHRONO | OF_LOCALE);
    R::add<DC>("dc.L.OI", "en_US.UTF-8|{:L%OI %Ow %Ou}", "%2% %1% %1", OF_CHRONO | OF_LOCALE);
    R::add<DC>("dc.L.c", "en_US.UTF-8|{:L%c}", "%A% %2% %M% %Y% %2:%2:%2% %P% %Z", OF_CHRONO | OF_LOCALE);
    R::add<DC>("dc.L.Ec", "fi_FI.UTF-8|{:L%Ec}", "%A% %2.% %Mta% %Y% %2.%2.%2", OF_CHRONO | OF_LOCALE);
    R::add<std::tm, int>("tm.L.X", "de_DE.UTF-8|{:L%X} {}", "%2:%2:%2% %i", OF_CHRONO | OF_LOCALE);
    R::add<std::tm, int>("tm.L.EX", "de_DE.UTF-8|{:L%Ex %EX} {}", "%2.%2.%Y% %2:%2:%2% %i", OF_CHRONO | OF_LOCALE);
    R::add<DC>("dc.L.r", "en_US.UTF-8|{:L%r}", "%2:%2:%2% %P", OF_CHRONO | OF_LOCALE);
    R::add<DC>("dc.L.sub", "de_DE.UTF-8|{:L%M:%.OS}", "%2:%2,%u", OF_CHRONO | OF_LOCALE);
    R::add<DC>("dc.sub", "{:%M:%.S}", "%2:%2.%u", OF_CHRONO);
    R::add<std::tm>("tm.L.x", "de_DE.UTF-8|{:L%x}", "%2.%2.%Y", OF_CHRONO | OF_LOCALE);
    R::add<std::vector<char>>("vec.c", "{}", "[%c,%_%c]", OF_NESTED);
    R::add<std::vector<std::wstring>>("vec.ws", "{}", "[%w% ,%_%w% ]", OF_NESTED);
    R::add<std::map<S, std::vector<int>>>("map.sv", "{}", "{%l% :%_[%i,%i],%_%l% :[%i]}", OF_NESTED);
    R::add<std::set<S>>("set.s", "{}", "{%w% ,%_%w% }", OF_NESTED);
    R::add<std::vector<char>>("vec.ch", "{}", "[%c,%_%c]", OF_NESTED);
    R::add<std::tuple<>>("tuple0", "{}", "()", OF_NESTED);
    R::add<scn::discard<S>, S>("disc.s", "{} {}", "%w% %w");
}
}  // namespace sim
