#include "entry_t.hpp"
std::string run_32(const mini::J& j) { return entry::run<char32_t>(j); }
