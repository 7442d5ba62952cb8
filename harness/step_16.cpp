#include "step_t.hpp"
std::string step_16(const mini::J& j) { return j["dbg"].n ? run_steps<char16_t, true>(j) : run_steps<char16_t, false>(j); }
