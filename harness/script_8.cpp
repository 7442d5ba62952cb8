#include "script_t.hpp"
std::string run_8(const mini::J& j) { return run_script<char8_t>(j); }
