#include "args_t.hpp"
std::string args::run_n(const J& j) { world<char> w(j["tm"]); return w.run(j); }
