#include "entry_t.hpp"
std::string run_8(const mini::J& j) { return entry::run<char8_t>(j); }
