// Plans: the complete, serialisable description of a simulated run (= the replay file).
#pragma once
#include "sim.h"

namespace sim {

struct SrcSpec {
    Src kind = S_FILE;
    FileSpec file;           // content is used for every kind
};
struct Step {
    int thread = 0, src = 0;
    std::string verb, arg;
    long n = 0;
};
struct Case {
    std::vector<SrcSpec> srcs;
    std::vector<Step> steps;
    std::map<std::string, std::string> params;
    Schedule sched;          // replay schedule
    bool has_sched = false;  // false: generate one from `schedseed`
    long par(const std::string& k, long d) const
    {
        auto it = params.find(k);
        return it == params.end() ? d : atol(it->second.c_str());
    }
    std::string spar(const std::string& k, const std::string& d = {}) const
    {
        auto it = params.find(k);
        return it == params.end() ? d : it->second;
    }
    void set(const std::string& k, long v) { params[k] = std::to_string(v); }
};
struct Plan {
    std::string prop;
    uint64_t seed = 0;
    std::vector<Case> cases;
    std::string serialise() const;
    static bool parse(const std::string& text, Plan& out, std::string& err);
};

std::string hex(std::string_view s);
std::string unhex(const std::string& s);
std::string quote(std::string_view s);
bool valid_utf8(std::string_view s);
std::wstring widen(std::string_view s);
std::string make_valid_utf8(const std::string& s);

// gen.cpp
std::string gen_text(Rng& r, const std::string& tmpl, double mutate);
std::string gen_tail(Rng& r);
std::vector<Ev> gen_delivery(Rng& r, size_t len);
void gen_buffering(Rng& r, FileSpec& f);
const OpDef& pick_op(Rng& r, unsigned must, unsigned mustnot);
void mutate_text(Rng& r, std::string& s, int n);

// props.cpp
struct PropDef {
    const char* id;
    int cases_per_run;
    void (*gen)(Rng&, Case&);
    void (*exec)(Case&);
    uint64_t step_limit;
};
extern const PropDef props[];
void op_rates();
const PropDef* find_prop(const std::string& id);

}  // namespace sim
