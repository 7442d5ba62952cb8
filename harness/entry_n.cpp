#include "entry_t.hpp"
std::string run_n(const mini::J& j) { return entry::run<char>(j); }
