#include "script_t.hpp"
std::string run_32(const mini::J& j) { return run_script<char32_t>(j); }
