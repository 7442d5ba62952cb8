#include "entry_t.hpp"
std::string run_16(const mini::J& j) { return entry::run<char16_t>(j); }
