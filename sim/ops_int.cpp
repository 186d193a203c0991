#include "ops.h"
namespace sim {
void reg_int()
{
    using R = Reg;
    R::add<int>("i", "{}", "%_%i");
    R::add<int>("i.val", "", "%_%i");
    R::add<int>("i.d", "{:d}", "%_%i");
    R::add<int>("i.x", "{:x}", "%_%x");
    R::add<int>("i.i", "{:i}", "%_%j");
    R::add<int>("i.b", "{:b}", "%_%B");
    R::add<int>("i.o", "{:o}", "%_%o");
    R::add<int>("i.r7", "{:r7}", "%_%i");
    R::add<int>("i.w5", "{:5}", "%_%i");
    R::add<int>("i.p3", "{:.3}", "%_%i");
    R::add<int>("i.rj", "{:>6}", "%_%i%_");
    R::add<int>("i.lj", "{:<6}", "%_%i%_");
    R::add<int>("i.ctr", "{:*^8}", "%*%i%*");
    R::add<int>("i.fill", "{:*>6}", "%*%i");
    R::add<int>("i.lit", "x={};", "x=%i;");
    R::add<int>("i.lit2", " v: {} end", "%_v:% %i% end");
    R::add<unsigned>("u", "{}", "%_%u");
    R::add<unsigned>("u.u", "{:u}", "%_%u");
    R::add<unsigned>("u.x", "{:x}", "%_%x");
    R::add<long long>("ll", "{}", "%_%I");
    R::add<unsigned long long>("ull", "{}", "%_%I");
    R::add<short>("sh", "{}", "%_%i");
    R::add<signed char>("sc", "{}", "%_%i");
    R::add<void*>("p", "{}", "%_%p");
    R::add<void*>("p.val", "", "%_%p");
    R::add<int, int>("ii", "{} {}", "%_%i% %i");
    R::add<int, int>("ii.comma", "{},{}", "%i,%i");
    R::add<int, int>("ii.colon", "{}:{}", "%i:%i");
    R::add<int, int>("ii.rev", "{1} {0}", "%i% %i");
    R::add<int, int>("ii.adj", "{}{}", "%i%_%i");
    R::add<int, int>("ii.xx", "{:x}{:x}", "%x%_%x");
    R::add<int, int, int>("iii", "{} {} {}", "%i% %i% %i");
    R::add<int, int, int>("iii.date", "{}-{}-{}", "%u-%u-%u");
    R::add<int, int, int, int>("iiii", "{} {} {} {}", "%i% %i% %i% %i");
    R::add<int>("i.L.de", "de_DE.UTF-8|{:L}", "%_%D", OF_LOCALE);
    R::add<int>("i.L.en", "en_US.UTF-8|{:L}", "%_%E", OF_LOCALE);
    R::add<int, int>("ii.L.en", "en_US.UTF-8|{:L} {}", "%E% %i", OF_LOCALE);
    R::add<int>("i.disc", "{} ", "%i% %s", OF_NOLINE);
    R::add<scn::discard<int>, int>("disc.i", "{:d} {}", "%i% %i");
}
}  // namespace sim
