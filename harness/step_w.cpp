#include "step_t.hpp"
std::string step_w(const mini::J& j) { return j["dbg"].n ? run_steps<wchar_t, true>(j) : run_steps<wchar_t, false>(j); }
