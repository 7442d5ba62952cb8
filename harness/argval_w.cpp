#include "argval_t.hpp"
std::string argval::run_w(const J& j) { world<wchar_t> w; return w.run(j); }
