#include "step_t.hpp"
std::string step_n(const mini::J& j) { return j["dbg"].n ? run_steps<char, true>(j) : run_steps<char, false>(j); }
