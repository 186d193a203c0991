#pragma once
#include <string>
namespace sim {
struct Rng;
// a value of a random type: the operation that reads it, its written form, what the operation has to show
void gen_rec(Rng& r, bool contiguous, std::string& op, std::string& text, std::string& want);
}
