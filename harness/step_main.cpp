#include "mini.hpp"
std::string step_n(const mini::J& j);
std::string step_w(const mini::J& j);
std::string step_16(const mini::J& j);
int main(int argc, char** argv)
{
    return mini::run_cases(argc, argv, [](const mini::J& j) {
        switch(j["A"]["w"].n)
        {
        case 0: return step_n(j);
        case 1: return step_w(j);
        default: return step_16(j);
        }
    });
}
