// Histories of script variables.
#include "syms.hpp"
#include <cmath>
#include <limits>
#include <variant>
using namespace hist;
namespace utf = papilio::utf;
using list_t = std::vector<long long>;

static list_t digits(bool neg, std::uint64_t m, int e) // m times 2^e
{
    if(m == 0) return {0, 0};
    while(!(m & 1)) { m >>= 1; ++e; }
    int w = 64 - __builtin_clzll(m);
    list_t r{neg, e + w};
    for(int i = w - 1; i >= 0; --i) r.push_back((m >> i) & 1);
    return r;
}
template <typename T>
static list_t number(T v)
{
    if constexpr(std::is_floating_point_v<T>)
    {
        if(std::isnan(v)) return {-9};
        if(std::isinf(v)) return {v < 0, 999, 1};
        int e;
        T m = std::frexp(std::fabs(v), &e);
        return digits(v < 0, static_cast<std::uint64_t>(std::ldexp(m, 64 - 1)), e - 63);
    }
    else if constexpr(std::is_signed_v<T>)
    {
        auto x = static_cast<long long>(v);
        return digits(x < 0, x < 0 ? 0 - static_cast<std::uint64_t>(x) : static_cast<std::uint64_t>(x), 0);
    }
    else return digits(false, static_cast<std::uint64_t>(v), 0);
}
static std::uint64_t magnitude(const J& n)
{
    std::uint64_t r = 0;
    for(auto& d : n["m"].a) r = r * 2 + static_cast<std::uint64_t>(d.n);
    return n["m"].size() ? r << (n["e"].n - static_cast<long long>(n["m"].size())) : 0;
}
static long double real(const J& n)
{
    if(n["e"].n == 999) return n["s"].n ? -INFINITY : INFINITY;
    long double r = 0;
    int w = n["e"].i();
    for(auto& d : n["m"].a) { --w; if(d.n) r += std::ldexp(1.0L, w); }
    return n["s"].n ? -r : r;
}

template <typename C>
struct world
{
    using V = papilio::basic_variable<C>;
    using S = utf::basic_string_container<C>;
    using str = std::basic_string<C>;
    using view = std::basic_string_view<C>;
    std::list<str> texts;
    std::vector<std::optional<V>> v;
    std::vector<bool> gone; // moved from: what is left is not looked at

    static std::vector<int> ints(const J& j)
    {
        std::vector<int> r;
        for(auto& e : j.a) r.push_back(e.i());
        return r;
    }
    V make(const J& j, std::size_t h)
    {
        char k = j["k"].s[0];
        const J& n = j["n"];
        if(k == 'b') { bool b = n["m"].size() != 0; return h % 2 ? V(b) : V(std::variant<int, bool>(b)); }
        if(k == 'i')
        {
            auto m = static_cast<std::int64_t>(n["s"].n ? 0 - magnitude(n) : magnitude(n));
            switch(h % 8)
            {
            case 0: if(m == static_cast<int>(m)) return V(static_cast<int>(m)); break;
            case 1: if(m == static_cast<short>(m)) return V(static_cast<short>(m)); break;
            case 2: if(m == static_cast<signed char>(m)) return V(static_cast<signed char>(m)); break;
            case 3: if(m >= 0) return V(static_cast<std::uint64_t>(m)); break;
            case 4: if(m >= 0 && m <= 0xFFFFFFFF) return V(static_cast<unsigned>(m)); break;
            case 5: return V(std::variant<double, std::int64_t>(m));
            case 6: { const std::variant<std::int64_t, str> x(m); return V(x); }
            default: break;
            }
            return V(m);
        }
        if(k == 'f')
        {
            long double x = real(n);
            bool f32 = static_cast<long double>(static_cast<float>(x)) == x;
            switch(h % 5)
            {
            case 0: return V(x);
            case 1: if(f32) return V(static_cast<float>(x)); break;
            case 2: if(f32) return V(std::variant<float, bool>(static_cast<float>(x))); break;
            case 3: { const std::variant<bool, double> y(static_cast<double>(x)); return V(y); }
            default: break;
            }
            return V(static_cast<double>(x));
        }
        texts.push_back(txt<C>(ints(j["t"])));
        const str& s = texts.back();
        if(j["own"].n)
        {
            switch(h % 4)
            {
            case 0: return V(papilio::independent, s);
            case 1: { str t = s; return V(std::move(t)); }
            case 2: return V(S(papilio::independent, s));
            default: { std::variant<bool, str> x{str(s)}; return V(std::move(x)); }
            }
        }
        switch(h % 5)
        {
        case 0: return V(s);
        case 1: return V(view(s));
        case 2: return V(s.c_str());
        case 3: return V(S(s));
        default: { const std::variant<bool, view> x{view(s)}; return V(x); }
        }
    }
    // kind, value, ownership
    static std::string show(const std::optional<V>& o)
    {
        if(!o) return "[\"n\",[],0]";
        const V& x = *o;
        int n = x.holds_bool() + x.holds_int() + x.holds_float() + x.holds_string();
        n += x.template holds<bool>() + x.template holds<typename V::int_type>() + x.template holds<typename V::float_type>() + x.template holds<S>();
        if(n != 2) return "[\"?\",[],0]";
        std::string k = x.holds_bool() ? "b" : x.holds_int() ? "i" : x.holds_float() ? "f" : "t";
        list_t r;
        if(auto p = x.template get_if<bool>()) r = number<unsigned>(*p);
        else if(auto q = x.template get_if<typename V::int_type>()) r = number(*q);
        else if(auto f = x.template get_if<typename V::float_type>()) r = number(*f);
        else if(auto s = x.template get_if<S>()) r = symbols<C>(view(*s));
        else r = {-71};
        return "[\"" + k + "\"," + list(r) + "," + (x.has_ownership() ? "1" : "0") + "]";
    }
    template <typename F>
    static list_t guarded(F&& f)
    {
        try { return f(); }
        catch(const papilio::invalid_conversion&) { return {-2}; }
        catch(const papilio::bad_variable_access&) { return {-3}; }
        catch(const std::exception&) { return {-4}; }
    }
    template <typename T>
    static list_t get(const V& x)
    {
        const T* p = x.template get_if<T>();
        list_t r = guarded([&]() -> list_t {
            const T& y = x.template get<T>();
            if(&y != p || !x.template holds<T>()) return {-71};
            if constexpr(std::is_same_v<T, S>) return symbols<C>(view(y));
            else if constexpr(std::is_same_v<T, bool>) return number<unsigned>(y);
            else return number(y);
        });
        return (r == list_t{-3}) == (p == nullptr) ? r : list_t{-71};
    }
    static list_t as(const V& x, const std::string& t)
    {
        return guarded([&]() -> list_t {
            if(t == "bool") return {x.template as<bool>()};
            if(t == "i8") return number(x.template as<std::int8_t>());
            if(t == "u8") return number(x.template as<std::uint8_t>());
            if(t == "i16") return number(x.template as<std::int16_t>());
            if(t == "u16") return number(x.template as<std::uint16_t>());
            if(t == "i32") return number(x.template as<std::int32_t>());
            if(t == "u32") return number(x.template as<std::uint32_t>());
            if(t == "i64") return number(x.template as<std::int64_t>());
            if(t == "u64") return number(x.template as<std::uint64_t>());
            if(t == "f32") return number(x.template as<float>());
            if(t == "f64") return number(x.template as<double>());
            if(t == "cont") return symbols<C>(view(x.template as<S>()));
            if(t == "view") return symbols<C>(x.template as<view>());
            if(t == "str") return symbols<C>(view(x.template as<str>()));
            if(t == "ref") return symbols<C>(view(x.template as<utf::basic_string_ref<C>>()));
            return {-60};
        });
    }
    list_t apply(const J& op, std::size_t h)
    {
        const std::string& o = op[0].s;
        if(o == "mv" || o == "mas") gone[static_cast<std::size_t>(op[2].n - 1)] = true;
        if(o != "swap") gone[static_cast<std::size_t>(op[1].n - 1)] = false;
        auto& a = v.at(static_cast<std::size_t>(op[1].n - 1));
        auto b = [&]() -> std::optional<V>& { return v.at(static_cast<std::size_t>(op[2].n - 1)); };
        if(o == "put")
        {
            V x = make(op[2], h);
            if(a && h % 3) *a = std::move(x); else { a.reset(); a.emplace(make(op[2], h + 7)); }
            return {};
        }
        if(o == "del") { a.reset(); return {}; }
        if(o == "cpy") { a.emplace(std::as_const(*b())); return {}; }
        if(o == "mv") { a.emplace(std::move(*b())); return {}; }
        if(o == "cas") { *a = std::as_const(*b()); return {}; }
        if(o == "mas") { *a = std::move(*b()); return {}; }
        if(o == "swap") { std::swap(*a, *b()); return {}; }
        const V& x = *a;
        if(o == "as") return as(x, op[2].s);
        if(o == "get")
        {
            switch(op[2].s[0])
            {
            case 'b': return get<bool>(x);
            case 'i': return get<typename V::int_type>(x);
            case 'f': return get<typename V::float_type>(x);
            default: return get<S>(x);
            }
        }
        const V& y = *b();
        if(o == "cmp")
        {
            auto c = x.compare(y);
            bool ok = (x <=> y) == c && (x < y) == (c < 0) && (x > y) == (c > 0) && (x <= y) == (c <= 0) && (x >= y) == (c >= 0);
            return {!ok ? -71 : c < 0 ? -1 : c > 0 ? 1 : c == 0 ? 0 : 9};
        }
        if(o == "eq")
        {
            bool e = x == y;
            return {(x != y) != e && x.equal(y) == e ? e : -71};
        }
        if(o == "eqe") return {x.equal(y, static_cast<float>(real(op[3])))};
        return {-60};
    }
    std::string run(const J& j)
    {
        v.resize(static_cast<std::size_t>(j["NS"].n));
        gone.resize(v.size());
        std::string out = "[";
        auto& ops = j["ops"].a;
        for(std::size_t n = 0; n < ops.size(); ++n)
        {
            list_t e = apply(ops[n], n + static_cast<std::size_t>(j["h"].n));
            out += std::string(n ? "," : "") + "{\"x\":0,\"e\":" + list(e) + ",\"p\":[";
            for(std::size_t i = 0; i < v.size(); ++i) out += (i ? "," : "") + (gone[i] ? std::string("[\"u\",[],0]") : show(v[i]));
            out += "]}";
        }
        return out + ",{\"end\":0}]";
    }
};
int main(int argc, char** argv)
{
    return mini::run_cases(argc, argv, [](const J& j) {
        switch(j["ek"].n)
        {
        case 0: return world<char>().run(j);
        case 1: return world<char16_t>().run(j);
        case 2: return world<char32_t>().run(j);
        case 3: return world<wchar_t>().run(j);
        default: return world<char8_t>().run(j);
        }
    });
}
