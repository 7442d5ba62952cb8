#include "entry_t.hpp"
std::string run_w(const mini::J& j) { return entry::run<wchar_t>(j); }
