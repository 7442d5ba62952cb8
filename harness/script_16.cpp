#include "script_t.hpp"
std::string run_16(const mini::J& j) { return run_script<char16_t>(j); }
