#include "args_t.hpp"
int main(int argc, char** argv)
{
    return mini::run_cases(argc, argv, [](const mini::J& j) { return j["w"].n ? args::run_w(j) : args::run_n(j); });
}
