// The code points of the specifications of strings: symbols 2k and 2k+1 are of
// length class k, in code point order.
#pragma once
#include "hist.hpp"
namespace hist
{
static constexpr char32_t table[8] = {0x61, 0x7F, 0x80, 0x7FF, 0x5B57, 0xFFFD, 0x10000, 0x10FFFF};
inline int symbol(char32_t c)
{
    for(int i = 0; i < 8; ++i) if(table[i] == c) return i;
    return -5;
}
template <typename C>
void put(std::basic_string<C>& r, char32_t c)
{
    if constexpr(sizeof(C) == 4) r.push_back(static_cast<C>(c));
    else if constexpr(sizeof(C) == 2)
    {
        if(c < 0x10000) r.push_back(static_cast<C>(c));
        else { r.push_back(static_cast<C>(0xD800 + ((c - 0x10000) >> 10))); r.push_back(static_cast<C>(0xDC00 + ((c - 0x10000) & 0x3FF))); }
    }
    else
    {
        auto u = [&](unsigned x) { r.push_back(static_cast<C>(static_cast<unsigned char>(x))); };
        if(c < 0x80) u(c);
        else if(c < 0x800) { u(0xC0 | (c >> 6)); u(0x80 | (c & 63)); }
        else if(c < 0x10000) { u(0xE0 | (c >> 12)); u(0x80 | ((c >> 6) & 63)); u(0x80 | (c & 63)); }
        else { u(0xF0 | (c >> 18)); u(0x80 | ((c >> 12) & 63)); u(0x80 | ((c >> 6) & 63)); u(0x80 | (c & 63)); }
    }
}
template <typename C>
std::basic_string<C> txt(const std::vector<int>& v)
{
    std::basic_string<C> r;
    for(int x : v) put(r, table[x]);
    return r;
}
// the code units as symbols, without the help of the library; -6 for what is malformed
template <typename C>
std::vector<long long> symbols(std::basic_string_view<C> s)
{
    std::vector<long long> r;
    std::size_t i = 0;
    while(i < s.size())
    {
        int best = -6;
        std::size_t n = 1;
        for(int k = 0; k < 8; ++k)
        {
            auto p = txt<C>({k});
            if(s.substr(i, p.size()) == p) { best = k; n = p.size(); }
        }
        r.push_back(best);
        i += n;
    }
    return r;
}
} // namespace hist
