#include "script_t.hpp"
std::string run_wide(const mini::J& j) { return run_script<wchar_t>(j); }
