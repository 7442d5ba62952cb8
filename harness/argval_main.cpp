#include "argval_t.hpp"
int main(int argc, char** argv)
{
    return mini::run_cases(argc, argv, [](const mini::J& j) { return j["w"].n ? argval::run_w(j) : argval::run_n(j); });
}
