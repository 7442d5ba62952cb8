// Shared by every harness: a minimal JSON reader/writer, texts as code points,
// and the names of the errors the library reports.
#pragma once
#include <papilio/papilio.hpp>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

namespace mini
{
struct J
{
    enum K { nul, num, str, arr, obj } k = nul;
    long long n = 0;
    std::string s;
    std::vector<J> a;
    std::vector<std::string> keys; // of an object; the values are in a

    const J& operator[](const char* key) const
    {
        for(std::size_t i = 0; i < keys.size(); ++i)
            if(keys[i] == key)
                return a[i];
        return none();
    }
    static const J& none();
    template <std::integral I>
    const J& operator[](I i) const { return a.at(static_cast<std::size_t>(i)); }
    bool has(const char* key) const { return (*this)[key].k != nul; }
    std::size_t size() const { return a.size(); }
    int i() const { return static_cast<int>(n); }
};
inline const J& J::none()
{
    static const J j;
    return j;
}

class parser
{
    const char* p;
    void ws() { while(*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r') ++p; }

public:
    explicit parser(const char* s) : p(s) {}
    J value()
    {
        ws();
        J j;
        if(*p == '{')
        {
            j.k = J::obj;
            ++p; ws();
            while(*p != '}')
            {
                J key = value();
                ws(); ++p; // ':'
                j.keys.push_back(key.s);
                j.a.push_back(value());
                ws();
                if(*p == ',') { ++p; ws(); }
            }
            ++p;
        }
        else if(*p == '[')
        {
            j.k = J::arr;
            ++p; ws();
            while(*p != ']')
            {
                j.a.push_back(value());
                ws();
                if(*p == ',') { ++p; ws(); }
            }
            ++p;
        }
        else if(*p == '"')
        {
            j.k = J::str;
            ++p;
            while(*p != '"') // no escapes are used in names
                j.s.push_back(*p++);
            ++p;
        }
        else
        {
            j.k = J::num;
            char* end;
            j.n = std::strtoll(p, &end, 10);
            if(end == p) { std::fprintf(stderr, "bad json at: %.40s\n", p); std::exit(3); }
            p = end;
        }
        return j;
    }
};
inline J parse(const std::string& s) { return parser(s.c_str()).value(); }

// A text is a sequence of code points; a negative element -1-u is the code unit u.
template <typename CharT>
std::basic_string<CharT> text(const J& j)
{
    std::basic_string<CharT> r;
    for(auto& e : j.a)
    {
        long long c = e.n;
        if(c < 0) { r.push_back(static_cast<CharT>(-1 - c)); continue; }
        if constexpr(sizeof(CharT) == 4) r.push_back(static_cast<CharT>(c));
        else if constexpr(sizeof(CharT) == 2)
        {
            if(c < 0x10000) r.push_back(static_cast<CharT>(c));
            else { r.push_back(static_cast<CharT>(0xD800 + ((c - 0x10000) >> 10))); r.push_back(static_cast<CharT>(0xDC00 + ((c - 0x10000) & 0x3FF))); }
        }
        else
        {
            auto u = [&](long long x) { r.push_back(static_cast<CharT>(static_cast<unsigned char>(x))); };
            if(c < 0x80) u(c);
            else if(c < 0x800) { u(0xC0 | (c >> 6)); u(0x80 | (c & 63)); }
            else if(c < 0x10000) { u(0xE0 | (c >> 12)); u(0x80 | ((c >> 6) & 63)); u(0x80 | (c & 63)); }
            else { u(0xF0 | (c >> 18)); u(0x80 | ((c >> 12) & 63)); u(0x80 | ((c >> 6) & 63)); u(0x80 | (c & 63)); }
        }
    }
    return r;
}

template <typename CharT>
long long unit(CharT c)
{
    return static_cast<long long>(static_cast<std::make_unsigned_t<std::conditional_t<std::is_same_v<CharT, wchar_t>, int, std::conditional_t<std::is_same_v<CharT, char32_t>, unsigned, std::conditional_t<std::is_same_v<CharT, char16_t>, unsigned short, char>>>>>(c));
}

template <typename It>
std::string units(It b, It e)
{
    std::string r = "[";
    bool first = true;
    for(; b != e; ++b)
    {
        if(!first) r += ',';
        first = false;
        r += std::to_string(unit(*b));
    }
    return r + "]";
}
template <typename S>
std::string units(const S& s) { return units(s.begin(), s.end()); }

inline const char* script_error_name(papilio::script_error_code ec)
{
    using papilio::script_error_code;
    switch(ec)
    {
    case script_error_code::end_of_string: return "end_of_string";
    case script_error_code::invalid_field_name: return "invalid_field_name";
    case script_error_code::invalid_condition: return "invalid_condition";
    case script_error_code::invalid_index: return "invalid_index";
    case script_error_code::invalid_attribute: return "invalid_attribute";
    case script_error_code::invalid_operator: return "invalid_operator";
    case script_error_code::invalid_string: return "invalid_string";
    case script_error_code::unenclosed_brace: return "unenclosed_brace";
    default: return "unknown_script_error";
    }
}

// Name of the exception being handled
inline std::string error_name()
{
    try { throw; }
    catch(const papilio::script_base::error& e) { return script_error_name(e.error_code()); }
    catch(const papilio::format_error&) { return "format_error"; }
    catch(const papilio::invalid_attribute_base&) { return "attr"; }
    catch(const papilio::invalid_conversion&) { return "invalid_conversion"; }
    catch(const papilio::bad_variable_access&) { return "bad_variable_access"; }
    catch(const papilio::bad_handle_cast&) { return "bad_handle_cast"; }
    catch(const std::bad_variant_access&) { return "bad_variant_access"; }
    catch(const std::out_of_range&) { return "out_of_range"; }
    catch(const std::length_error&) { return "length_error"; }
    catch(const std::invalid_argument& e) { return std::string("invalid_argument"); }
    catch(const std::runtime_error&) { return "runtime"; }
    catch(const std::exception& e) { return std::string("exception"); }
    catch(...) { return "unknown_exception"; }
}

// Reads cases (one JSON object per line) from argv[1], runs those from number
// argv[2] on, and prints one line per case: the case number and its result.
inline int run_cases(int argc, char** argv, const std::function<std::string(const J&)>& run)
{
    if(argc < 2) return 3;
    std::ifstream in(argv[1]);
    if(!in) return 3;
    const long from = argc > 2 ? std::atol(argv[2]) : 0;
    std::string line;
    for(long i = 0; std::getline(in, line); ++i)
    {
        if(i < from) continue;
        J j = parse(line);
        std::printf("@%ld\n", i); // being run
        std::fflush(stdout);
        std::string r = run(j);
        std::printf("=%ld %s\n", i, r.c_str());
        std::fflush(stdout);
    }
    std::printf("END\n");
    std::fflush(stdout);
    return 0;
}
} // namespace mini
