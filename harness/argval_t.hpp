// Histories of argument values (C13), for one character type
#pragma once
#include "hist.hpp"
#include <array>
#include <cmath>

namespace argval
{
using mini::J;

inline long live_soo = 0, live_big = 0, live_thr = 0;
inline bool armed = false; // copying a thr fails

struct soo
{
    int id;
    soo(int i) noexcept : id(i) { ++live_soo; }
    soo(const soo& o) noexcept : id(o.id) { ++live_soo; }
    soo(soo&& o) noexcept : id(o.id) { o.id = -1; ++live_soo; }
    ~soo() { --live_soo; id = -2; }
};
struct stranger {};
struct edge // with a table pointer exactly as large as the place there is
{
    long id = 0, same = 0, again = 0;
};
struct big
{
    std::string id; // owns memory
    long pad[6] = {};
    big(int i) : id(std::string(static_cast<std::size_t>(i) * 30, '.') + std::to_string(i)) { ++live_big; }
    big(const big& o) : id(o.id) { ++live_big; }
    big(big&& o) : id(o.id) { ++live_big; }
    ~big() { --live_big; }
    big* operator&() = delete;
    const big* operator&() const = delete;
};
struct thr
{
    int id;
    thr(int i) : id(i) { ++live_thr; }
    thr(const thr& o) : id(o.id) { if(armed) throw hist::fuse_blown(); ++live_thr; }
    ~thr() { --live_thr; id = -2; }
};
} // namespace argval

#define ARGVAL_FORMATTER(T, letter, num)                                                           \
    template <typename C>                                                                          \
    struct papilio::formatter<argval::T, C>                                                        \
    {                                                                                              \
        template <typename P, typename Ctx>                                                        \
        auto format(const argval::T& b, P&, Ctx& ctx) const                                        \
        {                                                                                          \
            papilio::format_context_traits<Ctx>::append(ctx, static_cast<char32_t>(letter));       \
            papilio::format_context_traits<Ctx>::append(ctx, static_cast<char32_t>('0' + num));    \
            return ctx.out();                                                                      \
        }                                                                                          \
    };
ARGVAL_FORMATTER(soo, 'S', b.id)
ARGVAL_FORMATTER(edge, 'E', b.id)
ARGVAL_FORMATTER(big, 'B', (b.id.back() - '0'))
ARGVAL_FORMATTER(thr, 'T', b.id)

namespace argval
{
template <typename C>
struct world
{
    using S = std::basic_string<C>;
    using SV = std::basic_string_view<C>;
    using Ctx = std::conditional_t<std::is_same_v<C, char>, papilio::format_context, papilio::wformat_context>;
    using arg_t = papilio::basic_format_arg<Ctx>;
    using handle = typename arg_t::handle;
    using cont = papilio::utf::basic_string_container<C>;

    static S str(const std::string& s) { return S(s.begin(), s.end()); }
    static constexpr int NV = 2;

    // the values
    static constexpr bool bools[] = {false, false, true};
    static constexpr char32_t cps[] = {0, U'a', 0x20AC};
    static constexpr int ints[] = {0, -7, 2147483647};
    static constexpr unsigned uints[] = {0, 5, 4294967295u};
    static constexpr long long lls[] = {0, 9, -9000000000LL};
    static constexpr unsigned long long ulls[] = {0, 3, 18446744073709551615ull};
    static constexpr float flts[] = {0, 0.5f, -2.5f};
    static constexpr double dbls[] = {0, 0.25, -1.5};
    static constexpr long double lds[] = {0, 8.5L, -0.125L};
    S strs[3] = {S(), str("ab"), str("a text that is longer than any small string could be")};
    std::optional<soo> soos[3];
    edge edges[3] = {edge{}, edge{1, 1, 1}, edge{2, 2, 2}};
    std::vector<big> bigs;
    std::vector<thr> thrs;
    int arrs[3][2] = {{0, 0}, {1, 2}, {-3, 4}};
    std::array<int, 2> arrays[3] = {{{0, 0}}, {{1, 2}}, {{-3, 4}}};
    const std::type_info* tis[3] = {&typeid(void), &typeid(int), &typeid(std::string)};
    int flavor = 0;
    bool throwing = true;
    std::vector<std::optional<arg_t>> s;

    world()
    {
        bigs.reserve(3);
        thrs.reserve(3);
        for(int i = 0; i < 3; ++i)
        {
            soos[i].emplace(i);
            bigs.emplace_back(i);
            thrs.emplace_back(i);
        }
    }

    // makes an argument; put is called with the parameters of the constructor
    template <typename F>
    void make(const std::string& k, int v, F&& put)
    {
        const int f = flavor++ % 4;
        if(k == "bool") { if(f == 1) put(std::in_place_type<bool>, bools[v]); else put(bool(bools[v])); }
        else if(k == "cp")
        {
            if(f == 0) put(papilio::utf::codepoint(cps[v]));
            else if(f == 1) put(std::in_place_type<papilio::utf::codepoint>, cps[v]);
            else if(f == 2 && v == 1) put(static_cast<C>('a'));
            else put(char32_t(cps[v]));
        }
        else if(k == "int")
        {
            if(f == 0) put(std::in_place_type<int>, ints[v]);
            else if(f == 1 && v == 1) put(static_cast<signed char>(ints[v]) + short(0));
            else if(f == 2 && v == 1) put(static_cast<short>(ints[v]));
            else put(ints[v]);
        }
        else if(k == "uint")
        {
            if(f == 0) put(std::in_place_type<unsigned>, uints[v]);
            else if(f == 1 && v == 1) put(static_cast<unsigned short>(uints[v]));
            else put(uints[v]);
        }
        else if(k == "ll") { if(f == 0) put(static_cast<long>(lls[v])); else put(lls[v]); }
        else if(k == "ull") { if(f == 0) put(static_cast<unsigned long>(ulls[v])); else if(f == 1) put(std::in_place_type<unsigned long long>, ulls[v]); else put(ulls[v]); }
        else if(k == "flt") put(float(flts[v]));
        else if(k == "dbl") { if(f == 0) put(std::in_place_type<double>, dbls[v]); else put(double(dbls[v])); }
        else if(k == "ld") put(static_cast<long double>(lds[v]));
        else if(k == "ptr")
        {
            if(v == 1 && f < 2) { if(f == 0) put(nullptr); else put(static_cast<const void*>(nullptr)); }
            else if(v == 1) put(static_cast<int*>(nullptr));
            else if(f == 0) put(static_cast<void*>(arrs[0]));
            else if(f == 1) put(std::in_place_type<const void*>, static_cast<const void*>(arrs[0]));
            else put(static_cast<const int*>(arrs[0]));
        }
        else if(k == "sv")
        {
            if(f == 0) put(SV(strs[v]));
            else if(f == 1) put(strs[v]);
            else if(f == 2) put(strs[v].c_str());
            else put(std::in_place_type<cont>, SV(strs[v]));
        }
        else if(k == "so")
        {
            if(f == 0) put(papilio::independent, strs[v]);
            else if(f == 1) put(S(strs[v]));
            else if(f == 2) put(cont(papilio::independent, strs[v]));
            else put(papilio::independent, SV(strs[v]));
        }
        else if(k == "soo") { if(f == 0) put(papilio::independent, soo(v)); else if(f == 1) put(soo(v)); else if(f == 2) put(std::in_place_type<handle>, *soos[v]); else put(std::as_const(*soos[v])); }
        else if(k == "edge") { if(f == 0) put(std::as_const(edges[v])); else put(edges[v]); }
        else if(k == "big") { if(f == 0) put(std::as_const(bigs[v])); else if(f == 1) put(std::in_place_type<handle>, std::as_const(bigs[v])); else put(bigs[v]); }
        else if(k == "bigi") { if(f == 0) put(papilio::independent, big(v)); else if(f == 1) put(std::in_place_type<handle>, papilio::independent, big(v)); else put(papilio::independent, big(v)); }
        else if(k == "thr") put(std::as_const(thrs[v]));
        else if(k == "thri") put(papilio::independent, thr(v));
        else if(k == "span")
        {
            if(f == 0) put(arrs[v]);
            else if(f == 1) put(std::as_const(arrs[v]));
            else if(f == 2) put(arrays[v]);
            else put(std::span<const int>(arrs[v]));
        }
        else if(k == "ti") { if(f == 0) put(std::type_index(*tis[v])); else put(*tis[v]); }
        else { std::fprintf(stderr, "unknown kind %s\n", k.c_str()); std::exit(3); }
    }

    S text(const std::string& k, int v) const
    {
        if(k == "bool") return str(bools[v] ? "true" : "false");
        if(k == "cp") return v == 1 ? str("a") : mini::text<C>(mini::parse("[8364]"));
        if(k == "int") return str(std::to_string(ints[v]));
        if(k == "uint") return str(std::to_string(uints[v]));
        if(k == "ll") return str(std::to_string(lls[v]));
        if(k == "ull") return str(std::to_string(ulls[v]));
        if(k == "flt") return str(v == 1 ? "0.5" : "-2.5");
        if(k == "dbl") return str(v == 1 ? "0.25" : "-1.5");
        if(k == "ld") return str(v == 1 ? "8.5" : "-0.125");
        if(k == "str") return strs[v];
        if(k == "soo") return str("S" + std::to_string(v));
        if(k == "edge") return str("E" + std::to_string(v));
        if(k == "big") return str("B" + std::to_string(v));
        if(k == "thr") return str("T" + std::to_string(v));
        if(k == "span") return str(v == 1 ? "[1, 2]" : "[-3, 4]");
        return S();
    }

    // asks for a T; which of the values it is
    template <typename T, typename F>
    std::string ask(const arg_t& a, int& v, std::string& as, const char* name, F&& same) const
    {
        if(!throwing) // only what does not fail
        {
            if constexpr(std::is_same_v<T, soo> || std::is_same_v<T, edge> || std::is_same_v<T, big> || std::is_same_v<T, thr> || std::is_same_v<T, std::span<const int>> || std::is_same_v<T, std::type_index>)
            {
                if(!a.template holds<handle>()) return "\"v\"";
                if(!handle_cast<T>(std::addressof(std::get<handle>(a.to_variant())))) return "\"h\"";
            }
            else
            {
                using A = std::conditional_t<std::is_same_v<T, char32_t>, papilio::utf::codepoint, std::conditional_t<std::is_same_v<T, S>, cont, T>>;
                if(!std::get_if<A>(&a.to_variant())) return "\"v\"";
            }
        }
        try
        {
            const auto& x = get<T>(a);
            int w = -2;
            for(int i = 1; i <= NV; ++i) if(same(x, i)) w = i;
            if(!as.empty()) w = -3;
            v = w;
            as = name;
            return "\"o\"";
        }
        catch(const std::bad_variant_access&) { return "\"v\""; }
        catch(const papilio::bad_handle_cast&) { return "\"h\""; }
    }
    static void no(int& why, int line) { if(!why) why = line; }

    struct look
    {
        std::string alt;
        const void* at = nullptr; // the object of the user type that is shown
    };
    std::string observe(std::optional<arg_t>& x, bool full, look& l)
    {
        if(!x) return "{\"a\":0";
        const arg_t& a = *x;
        int why = 0, v = 0;
        // the alternative: told by visit, by holds and by the variant
        static const char* alts[] = {"mono", "bool", "cp", "int", "uint", "ll", "ull", "flt", "dbl", "ld", "str", "ptr", "handle"};
        const std::size_t ix = a.to_variant().index();
        std::string alt = ix < 13 ? alts[ix] : "?";
        l.alt = alt;
        const int visited = a.visit([]<typename T>(const T&) -> int {
            if constexpr(std::is_same_v<T, std::monostate>) return 0;
            else if constexpr(std::is_same_v<T, bool>) return 1;
            else if constexpr(std::is_same_v<T, papilio::utf::codepoint>) return 2;
            else if constexpr(std::is_same_v<T, int>) return 3;
            else if constexpr(std::is_same_v<T, unsigned>) return 4;
            else if constexpr(std::is_same_v<T, long long>) return 5;
            else if constexpr(std::is_same_v<T, unsigned long long>) return 6;
            else if constexpr(std::is_same_v<T, float>) return 7;
            else if constexpr(std::is_same_v<T, double>) return 8;
            else if constexpr(std::is_same_v<T, long double>) return 9;
            else if constexpr(std::is_same_v<T, cont>) return 10;
            else if constexpr(std::is_same_v<T, const void*>) return 11;
            else return std::is_same_v<T, handle> ? 12 : -1;
        });
        if(visited != static_cast<int>(ix)) no(why, __LINE__);
        const int held = a.template holds<std::monostate>() + a.template holds<bool>() + a.template holds<papilio::utf::codepoint>() + a.template holds<int>() + a.template holds<unsigned>() + a.template holds<long long>() + a.template holds<unsigned long long>() + a.template holds<float>() + a.template holds<double>() + a.template holds<long double>() + a.template holds<cont>() + a.template holds<const void*>() + a.template holds<handle>();
        if(held != 1) no(why, __LINE__);
        if(a.empty() != (alt == "mono") || static_cast<bool>(a) == a.empty()) no(why, __LINE__);
        std::string g = "[", as;
        throwing = full;
        g += ask<bool>(a, v, as, "bool", [&](auto& y, int i) { return y == bools[i]; });
        g += "," + ask<char32_t>(a, v, as, "cp", [&](auto& y, int i) { return y == cps[i]; });
        g += "," + ask<int>(a, v, as, "int", [&](auto& y, int i) { return y == ints[i]; });
        g += "," + ask<unsigned>(a, v, as, "uint", [&](auto& y, int i) { return y == uints[i]; });
        g += "," + ask<long long>(a, v, as, "ll", [&](auto& y, int i) { return y == lls[i]; });
        g += "," + ask<unsigned long long>(a, v, as, "ull", [&](auto& y, int i) { return y == ulls[i]; });
        g += "," + ask<float>(a, v, as, "flt", [&](auto& y, int i) { return y == flts[i]; });
        g += "," + ask<double>(a, v, as, "dbl", [&](auto& y, int i) { return y == dbls[i]; });
        g += "," + ask<long double>(a, v, as, "ld", [&](auto& y, int i) { return y == lds[i]; });
        g += "," + ask<S>(a, v, as, "str", [&](auto& y, int i) { return SV(y) == strs[i]; });
        g += "," + ask<const void*>(a, v, as, "ptr", [&](auto& y, int i) { return y == (i == 1 ? nullptr : static_cast<const void*>(arrs[0])); });
        g += "," + ask<soo>(a, v, as, "soo", [&](auto& y, int i) { return y.id == i; });
        g += "," + ask<edge>(a, v, as, "edge", [&](auto& y, int i) { return y.id == i && y.same == i && y.again == i; });
        g += "," + ask<big>(a, v, as, "big", [&](auto& y, int i) { l.at = std::addressof(y); return y.id == bigs[i].id; });
        g += "," + ask<thr>(a, v, as, "thr", [&](auto& y, int i) { l.at = std::addressof(y); return y.id == i; });
        g += "," + ask<std::span<const int>>(a, v, as, "span", [&](auto& y, int i) { return y.size() == 2 && (y.data() == arrs[i] || y.data() == arrays[i].data()); });
        g += "," + ask<std::type_index>(a, v, as, "ti", [&](auto& y, int i) { return y == std::type_index(*tis[i]); }) + "]";
        // one that is referred to is the user's own
        if(as == "big" && !a.has_ownership() && v > 0)
            for(auto& b : bigs) if(std::addressof(b) == l.at) l.at = nullptr;
        if(as == "thr" && !a.has_ownership() && v > 0)
            for(auto& b : thrs) if(std::addressof(b) == l.at) l.at = nullptr;
        int f = -1;
        if(as != "ti")
        {
            f = a.is_formattable();
            if(full)
            {
                try
                {
                    S r = papilio::vformat(SV(str("{}")), papilio::make_format_args<Ctx>(a));
                    if(f == 0 || (as != "ptr" && (v < 1 || r != text(as, v)))) no(why, __LINE__);
                }
                catch(const std::exception&) { if(f == 1) no(why, __LINE__); }
            }
        }
        if(alt == "handle")
        {
            const handle& h = std::get<handle>(a.to_variant());
            const std::type_info& ty = h.type();
            if((as == "soo" && ty != typeid(soo)) || (as == "big" && ty != typeid(big)) || (as == "thr" && ty != typeid(thr)) || (as == "ti" && ty != typeid(std::type_index))) no(why, __LINE__);
            if(h.has_ownership() != a.has_ownership()) no(why, __LINE__);
            if(full)
            {
                // a copy of the handle alone, of one that is not constant
                handle c(const_cast<handle&>(h)), d(c), e;
                e = d;
                d = std::move(c);
                if(d.type() != ty || e.type() != ty) no(why, __LINE__);
                if(as == "big" && (std::addressof(handle_cast<big>(d)) != std::addressof(handle_cast<big>(h)) || handle_cast<soo>(&e) || handle_cast<stranger>(&e))) no(why, __LINE__);
                if(as == "soo" && (handle_cast<soo>(d).id != v || handle_cast<soo>(e).id != v || handle_cast<big>(&e) || handle_cast<stranger>(&e))) no(why, __LINE__);
            }
        }
        return "{\"a\":1,\"k\":\"" + alt + "\",\"v\":" + std::to_string(v) + ",\"own\":" + (a.has_ownership() ? "1" : "0") + ",\"g\":" + g + ",\"f\":" + std::to_string(f) + ",\"ok\":" + (why ? "0,\"why\":" + std::to_string(why) : std::string("1"));
    }

    std::string run(const J& j)
    {
        const long b0 = live_soo, b1 = live_big, b2 = live_thr;
        flavor = j["h"].i();
        const int h = flavor;
        s.resize(static_cast<std::size_t>(j["NS"].n));
        std::string out = "[";
        auto& ops = j["ops"].a;
        for(std::size_t n = 0; n < ops.size(); ++n)
        {
            const J& op = ops[n];
            const std::string& o = op[0].s;
            auto& x = s[static_cast<std::size_t>(op[1].n - 1)];
            auto y = [&]() -> arg_t& { return *s[static_cast<std::size_t>(op[2].n - 1)]; };
            const int f = flavor++ % 3;
            if(o == "new") x.emplace();
            else if(o == "mk") make(op[2].s, op[3].i(), [&]<typename... P>(P&&... p) { x.emplace(std::forward<P>(p)...); });
            else if(o == "asg")
                make(op[2].s, op[3].i(), [&]<typename... P>(P&&... p) {
                    if constexpr(sizeof...(P) == 1) { if(f == 2) { *x = arg_t(std::forward<P>(p)...); return; } }
                    arg_t t(std::forward<P>(p)...);
                    if(f == 1) swap(t, *x);
                    else *x = std::move(t);
                });
            else if(o == "cp") { if(f) x.emplace(std::as_const(y())); else x.emplace(y()); }
            else if(o == "mv") x.emplace(std::move(y()));
            else if(o == "cas") { if(f) *x = std::as_const(y()); else *x = y(); }
            else if(o == "mas") *x = std::move(y());
            else if(o == "swap") { if(f == 0) x->swap(y()); else if(f == 1) swap(*x, y()); else if(&*x != &y()) std::swap(*x, y()); }
            else if(o == "del") x.reset();
            else if(o == "fmt")
            {
                try { (void)papilio::vformat(SV(str("{:>30}")), papilio::make_format_args<Ctx>(*x)); } catch(const std::exception&) {}
                try { (void)papilio::vformat(SV(str("{name:}")), papilio::make_format_args<Ctx>(papilio::arg(str("name").c_str(), *x))); } catch(const std::exception&) {}
            }
            else if(o == "mkx")
            {
                armed = true;
                bool thrown = false;
                try { x.emplace(papilio::independent, thrs[1]); } catch(const hist::fuse_blown&) { thrown = true; }
                armed = false;
                if(!thrown) { std::printf("no exception\n"); }
            }
            else { std::fprintf(stderr, "unknown op %s\n", o.c_str()); std::exit(3); }
            std::vector<look> ls(s.size());
            std::string sl;
            for(std::size_t i = 0; i < s.size(); ++i)
            {
                sl += (i ? "," : "") + observe(s[i], (n + static_cast<std::size_t>(h)) % 4 == 0 || n + 1 == ops.size(), ls[i]);
                int q = 0;
                for(std::size_t m = i + 1; m-- > 0;) if(ls[i].at && ls[m].at == ls[i].at) q = static_cast<int>(m) + 1;
                sl += s[i] ? ",\"q\":" + std::to_string(q) + "}" : "}";
            }
            out += (n ? "," : "") + std::string("{\"x\":0,\"l\":[") + std::to_string(live_soo - b0) + "," + std::to_string(live_big - b1) + "," + std::to_string(live_thr - b2) + "],\"s\":[" + sl + "]}";
        }
        s.clear();
        if(live_soo != b0 || live_big != b1 || live_thr != b2) out += std::string(ops.empty() ? "" : ",") + "{\"x\":9}";
        return out + "]";
    }
};

std::string run_n(const J&);
std::string run_w(const J&);
} // namespace argval
