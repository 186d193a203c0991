#include "ops.h"
namespace sim {
void reg_misc()
{
    using R = Reg;
    using S = std::string;
    R::add<S>("re.s", "{:/[a-z]+/}", "%l%u", OF_REGEX);
    R::add<S>("re.s2", "{:/[a-z]+[0-9]*;/}", "%l%u;", OF_REGEX);
    R::add<scn::regex_matches>("re.m", "{:/([a-z]+)=([0-9]+)/}", "%l=%u", OF_REGEX);
    R::add<scn::regex_matches, int>("re.mi", "{:/([a-z]+)([0-9]*)/} {}", "%l% %i", OF_REGEX);
    using V = std::string_view;
    R::add<V>("v", "{}", "%_%w", OF_REGEX);
    R::add<V>("v.set", "{:[^,]}", "%w% %s,", OF_REGEX);
    R::add<V>("v.c", "{:.4c}", "%w%w% %w", OF_REGEX);
    R::add<V>("v.p", "{:3.6}", "%_%w%w%w", OF_REGEX);
    R::add<V>("v.fill", "{:*>8}", "%*%w", OF_REGEX);
    R::add<V, int>("v.until", "{:=<s}={}", "%w=%i", OF_REGEX);
    R::add<V>("v.untilu", "{:→<s}", "%w→", OF_REGEX);
    R::add<V>("v.re", "{:/[a-z]+/}", "%l%u", OF_REGEX);
    R::add<V, int, V>("viv", "{} {} {}", "%_%w% %i% %w", OF_REGEX);
    R::add<S>("re.esc", "{:/[a-z]+\\/[0-9]+/}", "%l/%u", OF_REGEX);
    R::add<S>("s.uw", "{:<s}", "%w%_", 0);
    R::add<S>("s.until", "{:;<s}", "%w;%w", 0);
    R::add<S>("s.untilu", "{:€<s}", "%w€%w", 0);
    R::add<S, int>("s.until.i", "{:=<s}{}", "%l=%i", 0);
    R::add<std::tm>("tm.ymd", "{:%Y-%m-%d}", "%Y-%2-%2", OF_CHRONO);
    R::add<std::tm>("tm.dt", "{:%Y-%m-%dT%H:%M:%S}", "%Y-%2-%2T%2:%2:%2", OF_CHRONO);
    R::add<std::tm>("tm.hm", "{:%H:%M}", "%2:%2", OF_CHRONO);
    R::add<std::tm>("tm.T", "{:%T}", "%2:%2:%2", OF_CHRONO);
    R::add<std::tm>("tm.F", "{:%F %R}", "%Y-%2-%2% %2:%2", OF_CHRONO);
    R::add<std::tm>("tm.abd", "{:%b %d}", "%M% %2", OF_CHRONO);
    R::add<std::tm>("tm.AB", "{:%A, %B}", "%A,% %M", OF_CHRONO);
    R::add<std::tm>("tm.Ip", "{:%I:%M %p}", "%2:%2% %P", OF_CHRONO);
    R::add<scn::datetime_components>("dc.full", "{:%Y-%m-%dT%H:%M:%S%z}", "%Y-%2-%2T%2:%2:%2%z", OF_CHRONO);
    R::add<scn::datetime_components>("dc.j", "{:%Y %j}", "%Y% %3", OF_CHRONO);
    R::add<scn::datetime_components>("dc.fs", "{:%H:%M:%.S}", "%2:%2:%2.%3", OF_CHRONO);
    R::add<scn::datetime_components>("dc.Z", "{:%H:%M %Z}", "%2:%2% %Z", OF_CHRONO);
    R::add<scn::weekday>("wd.a", "{:%a}", "%A", OF_CHRONO);
    R::add<scn::year_month_day>("ymd", "{:%Y-%m-%d}", "%Y-%2-%2", OF_CHRONO);
    R::add<std::tm, int>("tm.i", "{:%H:%M} {}", "%2:%2% %i", OF_CHRONO);
    R::add<int, std::tm>("i.tm", "{} {:%Y-%m-%d}", "%i% %Y-%2-%2", OF_CHRONO);
    R::add<std::vector<int>>("vec.i", "{}", "[%i,% %i,%_%i]", OF_NESTED);
    R::add<std::vector<S>>("vec.s", "{}", "[%s% ,% %s% ]", OF_NESTED);
    R::add<std::vector<double>>("vec.f", "{}", "[%f,% %f]", OF_NESTED);
    R::add<std::set<int>>("set.i", "{}", "{%i,%_%i}", OF_NESTED);
    R::add<std::map<int, int>>("map.ii", "{}", "{%i:%_%i,%_%i:%i}", OF_NESTED);
    R::add<std::pair<int, double>>("pair", "{}", "(%i,%_%f)", OF_NESTED);
    R::add<std::tuple<int, S, int>>("tuple", "{}", "(%i,%_%l% ,%_%i)", OF_NESTED);
    R::add<int, std::vector<int>, int>("i.vec.i", "{} {} {}", "%i% [%i,%_%i]% %i", OF_NESTED);
    R::add<std::vector<std::pair<int, int>>>("vec.pair", "{}", "[(%i,%i),% (%i,%_%i)]", OF_NESTED);
    R::add<std::vector<std::vector<int>>>("vec.vec", "{}", "[[%i,%i],%_[%i],%_[]]", OF_NESTED);
}
}  // namespace sim
