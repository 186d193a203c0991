#include "ops.h"
namespace sim {
Outcome prompt_int(const char* msg)
{
    Outcome o;
    auto r = scn::prompt<int>(msg, "{}");
    FILE* f = stdin;
    finish(o, r, f);
    return o;
}
Outcome prompt_ss(const char* msg)
{
    Outcome o;
    auto r = scn::prompt<std::string, std::string>(msg, "{} {}");
    FILE* f = stdin;
    finish(o, r, f);
    return o;
}
}  // namespace sim
