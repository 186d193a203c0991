#include "ops.h"
namespace sim {
void reg_float()
{
    using R = Reg;
    R::add<double>("f", "{}", "%_%f");
    R::add<double>("f.val", "", "%_%f");
    R::add<double>("f.a", "{:a}", "%_%a");
    R::add<double>("f.e", "{:e}", "%_%f");
    R::add<double>("f.f", "{:f}", "%_%f");
    R::add<double>("f.g", "{:g}", "%_%f");
    R::add<double>("f.w8", "{:8}", "%_%f%_");
    R::add<double>("f.p4", "{:.4}", "%_%f");
    R::add<double>("f.ctr", "{:_^9}", "_%f_");
    R::add<float>("f32", "{}", "%_%f");
    R::add<long double>("f80", "{}", "%_%f");
    R::add<double, double>("ff", "{} {}", "%_%f% %f");
    R::add<double, double>("ff.comma", "{},{}", "%f,%f");
    R::add<double, int>("fi", "{} {}", "%f% %i");
    R::add<double>("f.L.de", "de_DE.UTF-8|{:L}", "%_%D", OF_LOCALE);
    R::add<double>("f.L.en", "en_US.UTF-8|{:L}", "%_%E", OF_LOCALE);
    R::add<double>("f.L.fr", "fr_FR.UTF-8|{:L}", "%_%D", OF_LOCALE);
    R::add<double>("f.loc", "de_DE.UTF-8|{}", "%_%f", OF_LOCALE);
    R::add<bool>("b", "{}", "%_%b");
    R::add<bool>("b.s", "{:s}", "%_%b");
    R::add<bool>("b.d", "{:d}", "%_%1");
    R::add<bool, bool>("bb", "{} {}", "%b% %b");
    R::add<bool>("b.L", "de_DE.UTF-8|{:L}", "%_%b", OF_LOCALE);
    R::add<char>("c", "{}", "%_%c");
    R::add<char>("c.val", "", "%_%c");
    R::add<char>("c.c", "{:c}", "%c");
    R::add<char>("c.x", "{:x}", "%_%1");
    R::add<char>("c.q", "{:?}", "%q");
    R::add<char, char>("cc", "{}{}", "%c%c");
    R::add<char, char>("cc.sp", "{} {}", "%c% %c");
    R::add<char, int>("ci", "{} {}", "%c% %i");
    R::add<wchar_t>("wc", "{}", "%_%w");
    R::add<wchar_t>("wc.d", "{:d}", "%_%i");
    R::add<char32_t>("c32", "{}", "%_%w");
    R::add<char32_t, char32_t>("c32c32", "{}{}", "%w%w");
}
}  // namespace sim
