#include "mini.hpp"
std::string run_narrow(const mini::J& j);
std::string run_wide(const mini::J& j);
std::string run_16(const mini::J& j);
std::string run_8(const mini::J& j);
std::string run_32(const mini::J& j);
int main(int argc, char** argv)
{
    return mini::run_cases(argc, argv, [](const mini::J& j) {
        switch(j["A"]["w"].n)
        {
        case 0: return run_narrow(j);
        case 1: return run_wide(j);
        case 2: return run_16(j);
        case 3: return run_8(j);
        default: return run_32(j);
        }
    });
}
