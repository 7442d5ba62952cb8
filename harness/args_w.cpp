#include "args_t.hpp"
std::string args::run_w(const J& j) { world<wchar_t> w(j["tm"]); return w.run(j); }
