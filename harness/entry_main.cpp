#include "mini.hpp"
std::string run_n(const mini::J& j);
std::string run_w(const mini::J& j);
std::string run_8(const mini::J& j);
std::string run_16(const mini::J& j);
std::string run_32(const mini::J& j);
int main(int argc, char** argv)
{
    return mini::run_cases(argc, argv, [](const mini::J& j) {
        switch(j["ek"].n)
        {
        case 0: return run_n(j);
        case 1: return run_16(j);
        case 2: return run_32(j);
        case 3: return run_w(j);
        default: return run_8(j);
        }
    });
}
