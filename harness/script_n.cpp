#include "script_t.hpp"
std::string run_narrow(const mini::J& j) { return run_script<char>(j); }
