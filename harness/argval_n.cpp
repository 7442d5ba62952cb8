#include "argval_t.hpp"
std::string argval::run_n(const J& j) { world<char> w; return w.run(j); }
