#include "ops.h"
namespace sim {
void reg_str()
{
    using R = Reg;
    using S = std::string;
    R::add<S>("s", "{}", "%_%s");
    R::add<S>("s.val", "", "%_%s");
    R::add<S>("s.s", "{:s}", "%_%w");
    R::add<S>("s.w", "{}", "%_%w");
    R::add<S>("s.c1", "{:.1c}", "%w");
    R::add<S>("s.c5", "{:.5c}", "%s% %w%w");
    R::add<S>("s.pc4", "{:.4c}", "%w%w%w%w");
    R::add<S>("s.p3", "{:.3}", "%_%w");
    R::add<S>("s.w6", "{:6}", "%_%w%_");
    R::add<S>("s.w6r", "{:>6}", "%_%w%_");
    R::add<S>("s.fill", "{:*^9}", "%*%w%*");
    R::add<S>("s.wp", "{:3.5}", "%_%w%w");
    R::add<S>("s.set", "{:[a-z]}", "%_%l");
    R::add<S>("s.set2", "{:[^,]}", "%w% %s,");
    R::add<S>("s.set3", "{:[A-Za-z0-9_]}", "%l%i");
    R::add<S>("s.set4", "{:[a-zåäö]}", "%l%w");
    R::add<S>("s.set5", "{:[:alpha:]}", "%l%w");
    R::add<S>("s.setp", "{:.4[a-z]}", "%l%l");
    R::add<S>("s.lit", "<{:[^>]}>", "<%s% %w>");
    R::add<S>("s.q", "{:?}", "%q%q");
    R::add<S, S>("ss", "{} {}", "%_%w% %w");
    R::add<S, S>("ss.kv", "{:[^=]}={}", "%l=%w");
    R::add<S, S, S>("sss", "{} {} {}", "%w% %s% %w");
    R::add<S, int>("si", "{} {}", "%w% %i");
    R::add<S, int>("si.kv", "{:[a-z]}={}", "%l=%i");
    R::add<int, S>("is", "{} {}", "%i% %w");
    R::add<int, S, double>("isf", "{} {} {}", "%i% %w% %f");
    R::add<int, S, double>("isf.lit", "{}={:[^;]};{}", "%i=%l;%f");
    R::add<double, S>("fs", "{} {}", "%f% %w");
    R::add<S, double>("sf", "{} {}", "%w% %f");
    R::add<std::wstring>("ws", "{}", "%_%w");
    R::add<std::wstring>("ws.c3", "{:.3c}", "%w%w");
    R::add<std::wstring>("ws.set", "{:[^,]}", "%w% %w,");
    R::add<std::wstring, int>("wsi", "{} {}", "%w% %i");
    R::add<std::wstring, S>("wss", "{} {}", "%w% %w");
    R::add<int>("lit.uni", "ä{}ö", "ä%iö", OF_NOLINE);
    R::add<int, S>("lit.uni2", "größe {}→{}", "größe %i→%w");
    R::add<S>("s.line", "{:[^\n]}", "%w% %s\n");
    R::add<char, S>("cs", "{} {}", "%c% %w");
    R::add<S, char>("s.c", "{}{}", "%w% %c");
}
}  // namespace sim
