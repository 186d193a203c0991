// Argument lists whose format string is made up for each run (see gen.cpp).
#include "ops.h"
namespace sim {
std::vector<OpDef>& protos()
{
    static auto* v = new std::vector<OpDef>;
    return *v;
}
namespace {
template <class... T>
void add(const char* types, unsigned flags = 0)
{
    OpDef d;
    d.id = types;
    d.flags = flags | OF_NOLINE;
    d.run = &run_op<T...>;
    protos().push_back(d);
}
template <class... T>
void wadd(const char* types, unsigned flags = 0)
{
    OpDef d;
    d.id = types;
    d.flags = flags | OF_NOLINE | OF_WIDE;
    d.wrun = &wrun_op<T...>;
    protos().push_back(d);
}
template <class T, size_t>
using rep = T;
template <size_t... I>
void add_many(const char* id, const std::string& fmt, std::index_sequence<I...>)
{
    std::string t;
    for (size_t i = 0; i < sizeof...(I); ++i) t += "%u% ";
    Reg::add<rep<int, I>...>(id, fmt.c_str(), t.c_str(), OF_NOLINE);
}
std::string many(int from, int to, bool ids)
{
    std::string f;
    for (int i = from; i < to; ++i) f += "{" + (ids ? std::to_string(i) : std::string()) + "} ";
    return f;
}
}  // namespace
void reg_dyn()
{
    using S = std::string;
    add<int>("i");
    add<unsigned char>("u");
    add<double>("f");
    add<S>("s");
    add<char>("c");
    add<bool>("b");
    add<char32_t>("C");
    add<void*>("p");
    add<std::wstring>("W");
    add<std::tm>("t", OF_CHRONO);
    add<scn::datetime_components>("d", OF_CHRONO);
    add<int, int>("ii");
    add<int, S>("is");
    add<S, double>("sf");
    add<char, S, int>("csi");
    add<std::tm, S>("ts", OF_CHRONO);
    add<scn::discard<int>, S>("xs");
    add_many("many.70", many(0, 70, false), std::make_index_sequence<70>{});
    add_many("many.72", many(8, 72, true) + many(0, 8, true), std::make_index_sequence<72>{});
    add_many("many.less", many(0, 70, false), std::make_index_sequence<71>{});
    add_many("many.twice", many(0, 70, true) + "{69}", std::make_index_sequence<71>{});
    wadd<int>("wi");
    wadd<double>("wf");
    wadd<std::wstring>("wW");
    wadd<S, int>("wsi");
    wadd<char32_t, std::wstring>("wCW");
    wadd<std::tm>("wt", OF_CHRONO);
}
}  // namespace sim
