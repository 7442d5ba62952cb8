// Builds formatting arguments of every kind from their description.
#pragma once
#include "mini.hpp"
#include <papilio/formatter/chrono.hpp>
#include <papilio/formatter/filesystem.hpp>
#include <papilio/accessor/chrono.hpp>
#include <papilio/accessor/misc.hpp>
#include <papilio/formatter/misc.hpp>
#include <array>
#include <ctime>
#include <expected>
#include <filesystem>
#include <list>
#include <locale>
#include <optional>
#include <set>
#include <span>
#include <thread>
#include <tuple>
#include <typeindex>
#include <unordered_map>
#include <utility>
#include <variant>

namespace user
{
enum color : int { alpha = 0, beta = 7, gamma = -3 };
enum class level : unsigned char { lo = 1, hi = 100 };

// Types with a formatter of their own; "big" ones cannot be stored inside an argument
template <typename Tag, bool Big>
struct obj
{
    const std::vector<char32_t>* text = nullptr;
    char32_t c = U'!';
    long long pad[Big ? 8 : 1] = {};
};
struct cls_tag {};
struct adl_tag {};
struct adlp_tag {};
struct str_tag {};
struct none_tag {};
template <bool B> using cls = obj<cls_tag, B>;
template <bool B> using adl = obj<adl_tag, B>;
template <bool B> using adlp = obj<adlp_tag, B>;
template <bool B> using str = obj<str_tag, B>;
template <bool B> using none = obj<none_tag, B>;

template <bool B, typename FormatContext>
requires requires { typename FormatContext::format_args_type; }
typename FormatContext::iterator format(const adl<B>& x, FormatContext& ctx)
{
    using context_t = papilio::format_context_traits<FormatContext>;
    context_t::append(ctx, '!');
    for(char32_t c : *x.text) context_t::append(ctx, papilio::utf::codepoint(c));
    return context_t::out(ctx);
}

template <bool B, typename ParseContext, typename FormatContext>
requires requires { typename FormatContext::format_args_type; }
typename FormatContext::iterator format(const adlp<B>& x, ParseContext& pctx, FormatContext& ctx)
{
    using context_t = papilio::format_context_traits<FormatContext>;
    context_t::append(ctx, '?');
    auto it = pctx.begin();
    for(; it != pctx.end() && *it != U'}'; ++it) context_t::append(ctx, papilio::utf::codepoint(*it));
    pctx.advance_to(it);
    context_t::append(ctx, ':');
    for(char32_t c : *x.text) context_t::append(ctx, papilio::utf::codepoint(c));
    return context_t::out(ctx);
}

template <bool B, typename CharT>
std::basic_ostream<CharT>& operator<<(std::basic_ostream<CharT>& os, const str<B>& x)
{
    mini::J j;
    for(char32_t c : *x.text) { mini::J e; e.n = static_cast<long long>(c); j.a.push_back(e); }
    os << mini::text<CharT>(j);
    // the stream's locale decides on the end
    if constexpr(std::is_same_v<CharT, char> || std::is_same_v<CharT, wchar_t>)
        os << std::use_facet<std::numpunct<CharT>>(os.getloc()).truename();
    return os;
}
} // namespace user

namespace papilio
{
template <bool B, typename CharT>
class formatter<user::obj<user::cls_tag, B>, CharT>
{
    std::basic_string<CharT> m_mode;
    std::size_t m_w = 0;

public:
    template <typename ParseContext>
    auto parse(ParseContext& ctx) -> typename ParseContext::iterator
    {
        auto it = ctx.begin();
        for(; it != ctx.end() && *it >= U'a' && *it <= U'z'; ++it) m_mode.push_back(static_cast<CharT>(*it));
        if(it != ctx.end() && *it == U'{')
        {
            ctx.advance_to(it);
            std::tie(m_w, it) = detail::fmt_parser_utils<ParseContext>::template parse_value<false>(ctx);
        }
        return it;
    }

    template <typename FormatContext>
    auto format(const user::obj<user::cls_tag, B>& x, FormatContext& ctx) const -> typename FormatContext::iterator
    {
        using context_t = format_context_traits<FormatContext>;
        mini::J j;
        for(char32_t c : *x.text) { mini::J e; e.n = static_cast<long long>(c); j.a.push_back(e); }
        const std::basic_string<CharT> s = mini::text<CharT>(j);
        // written with the iterator itself
        auto out = context_t::out(ctx);
        *out++ = CharT('<');
        for(CharT c : m_mode) *out++ = c;
        context_t::advance_to(ctx, out);
        context_t::append(ctx, '|');
        context_t::append(ctx, std::basic_string_view<CharT>(s));
        context_t::append(ctx, static_cast<CharT>('|'));
        context_t::append(ctx, papilio::utf::codepoint(x.c), 2);
        context_t::append(ctx, U'|');
        context_t::format_to(ctx, PAPILIO_TSTRING_VIEW(CharT, "{:*<{}}"), s, 5 + m_w);
        if(m_mode.find(static_cast<CharT>('l')) != m_mode.npos)
            context_t::append(ctx, std::use_facet<std::numpunct<CharT>>(ctx.getloc()).truename());
        context_t::append(ctx, '>');
        return context_t::out(ctx);
    }
};

template <bool B, typename Context>
struct accessor<user::obj<user::cls_tag, B>, Context>
{
    using char_type = typename Context::char_type;
    using arg_t = basic_format_arg<Context>;
    using obj_t = user::obj<user::cls_tag, B>;

    static arg_t index(const obj_t&, ssize_t i) { return arg_t(static_cast<long long>(i)); }
    static arg_t index(const obj_t&, std::basic_string_view<char_type> s)
    {
        return arg_t(independent, std::basic_string<char_type>(s));
    }
    static arg_t attribute(const obj_t& x, const basic_attribute_name<char_type>& a)
    {
        if(a == PAPILIO_TSTRING_VIEW(char_type, "text"))
        {
            mini::J j;
            for(char32_t c : *x.text) { mini::J e; e.n = static_cast<long long>(c); j.a.push_back(e); }
            return arg_t(independent, mini::text<char_type>(j));
        }
        throw_invalid_attribute(a);
    }
};
} // namespace papilio

namespace val
{
using mini::J;
using namespace papilio;

// Objects that the arguments refer to
struct arena
{
    std::vector<std::shared_ptr<void>> keep;
    template <typename T>
    T& own(T v)
    {
        auto p = std::make_shared<T>(std::move(v));
        keep.push_back(p);
        return *p;
    }
};

inline unsigned long long mag(const J& l)
{
    return static_cast<unsigned long long>(l[0].n) | static_cast<unsigned long long>(l[1].n) << 16 |
           static_cast<unsigned long long>(l[2].n) << 32 | static_cast<unsigned long long>(l[3].n) << 48;
}
inline unsigned long long bits(const J& j)
{
    unsigned long long m = mag(j["l"]);
    return j["g"].n ? 0ULL - m : m;
}

template <typename T>
struct conv;
template <std::integral T>
requires(!char_like<T> && !std::is_same_v<T, bool>)
struct conv<T> { static T get(const J& j) { return static_cast<T>(bits(j)); } };
template <> struct conv<bool> { static bool get(const J& j) { return j["v"].n != 0; } };
template <char_like T> struct conv<T> { static T get(const J& j) { return static_cast<T>(j["v"].n); } };
template <> struct conv<utf::codepoint> { static utf::codepoint get(const J& j) { return utf::codepoint(static_cast<char32_t>(j["v"].n)); } };
template <std::floating_point T>
struct conv<T>
{
    static T get(const J& j)
    {
        const std::string& h = j["h"].s;
        T r;
        if(j["cls"].n == 1) r = std::numeric_limits<T>::infinity();
        else if(j["cls"].n == 2) r = std::numeric_limits<T>::quiet_NaN();
        else r = static_cast<T>(std::strtold(h.c_str(), nullptr));
        return j["g"].n ? -std::abs(r) : std::abs(r);
    }
};
template <typename C> struct conv<std::basic_string<C>> { static std::basic_string<C> get(const J& j) { return mini::text<C>(j["v"]); } };
template <> struct conv<const void*>
{
    static const void* get(const J& j) { return reinterpret_cast<const void*>(mag(j["l"])); }
};
template <> struct conv<user::color> { static user::color get(const J& j) { return static_cast<user::color>(static_cast<int>(bits(j))); } };
template <> struct conv<user::level> { static user::level get(const J& j) { return static_cast<user::level>(bits(j)); } };
template <typename T> struct conv<std::vector<T>>
{
    static std::vector<T> get(const J& j)
    {
        std::vector<T> r;
        for(auto& e : j["v"].a) r.push_back(conv<T>::get(e));
        return r;
    }
};
template <typename A, typename B> struct conv<std::pair<A, B>>
{
    static std::pair<A, B> get(const J& j) { return {conv<A>::get(j["v"][0]), conv<B>::get(j["v"][1])}; }
};
template <typename... Ts> struct conv<std::tuple<Ts...>>
{
    static std::tuple<Ts...> get(const J& j)
    {
        return [&]<std::size_t... I>(std::index_sequence<I...>) { (void)j; return std::tuple<Ts...>(conv<Ts>::get(j["v"][I])...); }(std::index_sequence_for<Ts...>());
    }
};
template <typename T> struct conv<std::optional<T>>
{
    static std::optional<T> get(const J& j) { if(j["h"].n) return conv<T>::get(j["v"]); return std::nullopt; }
};
template <typename T, typename E> struct conv<std::expected<T, E>>
{
    static std::expected<T, E> get(const J& j)
    {
        if(j["h"].n) return conv<T>::get(j["v"]);
        return std::unexpected(conv<E>::get(j["v"]));
    }
};
template <> struct conv<std::monostate> { static std::monostate get(const J&) { return {}; } };
template <typename... Ts> struct conv<std::variant<Ts...>>
{
    static std::variant<Ts...> get(const J& j)
    {
        std::variant<Ts...> r;
        [&]<std::size_t... I>(std::index_sequence<I...>) { ((static_cast<long long>(I) == j["x"].n ? (void)r.template emplace<I>(conv<Ts>::get(j["v"])) : (void)0), ...); }(std::index_sequence_for<Ts...>());
        return r;
    }
};
template <typename M> M to_map(const J& j)
{
    M m;
    for(auto& e : j["v"].a)
        m.emplace(conv<typename M::key_type>::get(e[0]), conv<typename M::mapped_type>::get(e[1]));
    return m;
}
template <typename M> M to_flat(const J& j)
{
    M m;
    for(auto& e : j["v"].a)
        m.insert_or_assign(conv<typename M::key_type>::get(e[0]), conv<typename M::mapped_type>::get(e[1]));
    return m;
}

inline std::tm to_tm(const J& j)
{
    std::tm t{};
    t.tm_year = j["year"].i(); t.tm_mon = j["mon"].i(); t.tm_mday = j["mday"].i(); t.tm_hour = j["hour"].i();
    t.tm_min = j["min"].i(); t.tm_sec = j["sec"].i(); t.tm_wday = j["wday"].i(); t.tm_yday = j["yday"].i();
    t.tm_isdst = j["isdst"].i();
    return t;
}

[[noreturn]] inline void bad(const char* what, const std::string& k)
{
    std::fprintf(stderr, "harness: unknown %s %s\n", what, k.c_str());
    std::exit(3);
}

template <typename CharT>
struct builder
{
    using string = std::basic_string<CharT>;
    using context = basic_format_context<format_iterator_for<CharT>, CharT>;
    using arg_t = basic_format_arg<context>;
    static constexpr bool classic = std::is_same_v<CharT, char> || std::is_same_v<CharT, wchar_t>;

    arena mem;

    template <typename T>
    arg_t ref(T v) { return arg_t(mem.own<T>(std::move(v))); }

    template <typename T>
    arg_t seq(const J& j)
    {
        const std::string& k = j["k"].s;
        std::vector<T> v = conv<std::vector<T>>::get(j);
        if(k == "vec" || k == "vb") return ref(v);
        if constexpr(!std::is_same_v<T, bool>)
        {
            if(k == "span") { auto& o = mem.own(v); return ref(std::span<const T>(o.data(), o.size())); }
            if constexpr(std::is_same_v<T, int> || std::is_same_v<T, string>)
            {
                if(k == "list") return ref(std::list<T>(v.begin(), v.end()));
                if(k == "set") return ref(std::set<T>(v.begin(), v.end()));
                if(k == "fix") { fixed_vector<T, 12> f; for(auto& e : v) f.push_back(e); return ref(std::move(f)); }
                if(k == "small") { small_vector<T, 2> f; for(auto& e : v) f.push_back(e); return ref(std::move(f)); }
                if(k == "arr" && v.size() == 3) { std::array<T, 3> f; std::copy(v.begin(), v.end(), f.begin()); return ref(f); }
                if(k == "carr" && v.size() == 2)
                {
                    struct box { T a[2]; };
                    box b{{v[0], v[1]}};
                    return arg_t(mem.own(b).a);
                }
            }
        }
        bad("sequence", k);
    }

    template <typename T>
    arg_t joined(const J& j)
    {
        auto& o = mem.own(conv<std::vector<T>>::get(j));
        auto& sep = mem.own(mini::text<CharT>(j["sep"]));
        if(j["dsep"].n) return ref(papilio::join<CharT>(o));
        return ref(papilio::join<CharT>(o, std::basic_string_view<CharT>(sep)));
    }

    template <bool B>
    arg_t userobj(const J& j)
    {
        std::vector<char32_t> t;
        for(auto& e : j["v"].a) t.push_back(static_cast<char32_t>(e.n));
        auto& text = mem.own(t);
        char32_t c = j.has("c") ? static_cast<char32_t>(j["c"][0].n) : U'!';
        const std::string& k = j["k"].s;
        const bool own = j["own"].n != 0;
#define PAP_U(name) if(k == #name) { user::name<B> u; u.text = &text; u.c = c; if(own) return arg_t(independent, user::name<B>(u)); return ref(u); }
        PAP_U(cls) PAP_U(adl) PAP_U(adlp) PAP_U(str) PAP_U(none)
#undef PAP_U
        bad("user type", k);
    }

    arg_t make(const J& j)
    {
        const std::string& t = j["t"].s;
        if(t == "n") return arg_t();
        if(t == "b") return arg_t(conv<bool>::get(j));
        if(t == "c")
        {
            long long c = j["v"].n;
            if(j["k"].n == 1 && (sizeof(CharT) == 4 || c < 128)) return arg_t(static_cast<CharT>(c));
            if(j["k"].n == 2) return arg_t(static_cast<char32_t>(c));
            return arg_t(utf::codepoint(static_cast<char32_t>(c)));
        }
        if(t == "i")
        {
            const std::string& k = j["k"].s;
            unsigned long long x = bits(j);
            if(k == "i8") return arg_t(static_cast<signed char>(x));
            if(k == "u8") return arg_t(static_cast<unsigned char>(x));
            if(k == "i16") return arg_t(static_cast<short>(x));
            if(k == "u16") return arg_t(static_cast<unsigned short>(x));
            if(k == "i32") return arg_t(static_cast<int>(x));
            if(k == "u32") return arg_t(static_cast<unsigned>(x));
            if(k == "i64") return arg_t(static_cast<long long>(x));
            if(k == "l64") return arg_t(static_cast<long>(x));
            if(k == "ul64") return arg_t(static_cast<unsigned long>(x));
            if(k == "u64") return arg_t(static_cast<unsigned long long>(x));
            bad("integer", k);
        }
        if(t == "f")
        {
            if(j["k"].n == 0) return arg_t(conv<float>::get(j));
            if(j["k"].n == 1) return arg_t(conv<double>::get(j));
            return arg_t(conv<long double>::get(j));
        }
        if(t == "s")
        {
            string s = mini::text<CharT>(j["v"]);
            switch(j["k"].n)
            {
            default: return arg_t(mem.own(s));
            case 1: return arg_t(std::basic_string_view<CharT>(mem.own(s)));
            case 2: return arg_t(static_cast<const CharT*>(mem.own(s).c_str()));
            case 3: return arg_t(utf::basic_string_container<CharT>(independent, s));
            case 4: return arg_t(std::move(s));
            case 5: return arg_t(independent, s);
            }
        }
        if(t == "sb")
        {
            string s;
            for(auto& e : j["v"].a) s.push_back(static_cast<CharT>(e.n));
            return arg_t(mem.own(s));
        }
        if(t == "p")
        {
            unsigned long long m = mag(j["l"]);
            if(m == 0) return arg_t(nullptr);
            return arg_t(reinterpret_cast<const void*>(m));
        }
        if(t == "e") return j["k"].n == 0 ? ref(conv<user::color>::get(j)) : ref(conv<user::level>::get(j));
        if(t == "seq")
        {
            const std::string& e = j["ek"].s;
            if(e == "i") return seq<int>(j);
            if(e == "ll") return seq<long long>(j);
            if(e == "b") return seq<bool>(j);
            if(e == "c") return seq<CharT>(j);
            if(e == "cp") return seq<utf::codepoint>(j);
            if(e == "s") return seq<string>(j);
            if(e == "f") return seq<double>(j);
            if(e == "e") return seq<user::color>(j);
            if(e == "p") return seq<const void*>(j);
            if(e == "vi") return seq<std::vector<int>>(j);
            if(e == "vs") return seq<std::vector<string>>(j);
            if(e == "vc") return seq<std::vector<CharT>>(j);
            if(e == "pis") return seq<std::pair<int, string>>(j);
            if(e == "tisb") return seq<std::tuple<int, string, bool>>(j);
            bad("element", e);
        }
        if(t == "map")
        {
            const std::string& k = j["k"].s;
            const bool is = j["mk"].s == "is";
            if(k == "less") return is ? ref(to_map<std::map<int, string>>(j)) : ref(to_map<std::map<string, int>>(j));
            if(k == "greater") return is ? ref(to_map<std::map<int, string, std::greater<>>>(j)) : ref(to_map<std::map<string, int, std::greater<>>>(j));
            if(k == "other") return is ? ref(to_map<std::unordered_map<int, string>>(j)) : ref(to_map<std::unordered_map<string, int>>(j));
            if(k == "flat") return is ? ref(to_flat<fixed_flat_map<int, string, 8>>(j)) : ref(to_flat<fixed_flat_map<string, int, 8>>(j));
            bad("map", k);
        }
        if(t == "tup")
        {
            const std::string& k = j["tk"].s;
            if(k == "") return ref(std::tuple<>());
            if(k == "i") return ref(conv<std::tuple<int>>::get(j));
            if(k == "is") return ref(conv<std::pair<int, string>>::get(j));
            if(k == "si") return ref(conv<std::tuple<string, int>>::get(j));
            if(k == "isb") return ref(conv<std::tuple<int, string, bool>>::get(j));
            if(k == "fci") return ref(conv<std::tuple<double, utf::codepoint, int>>::get(j));
            if(k == "svi") return ref(conv<std::pair<string, std::vector<int>>>::get(j));
            if(k == "pi") return ref(conv<std::pair<const void*, int>>::get(j));
            if(k == "ovb") return ref(conv<std::tuple<std::optional<int>, std::variant<std::monostate, int, string>, std::vector<bool>>>::get(j));
            if(k == "eptu") return ref(conv<std::tuple<user::color, const void*, std::pair<int, string>, unsigned char>>::get(j));
            if(k == "iiii") return ref(conv<std::tuple<int, int, int, int>>::get(j));
            bad("tuple", k);
        }
        if(t == "opt")
        {
            const std::string& k = j["ok"].s;
            if(k == "i") return ref(conv<std::optional<int>>::get(j));
            if(k == "s") return ref(conv<std::optional<string>>::get(j));
            if(k == "vi") return ref(conv<std::optional<std::vector<int>>>::get(j));
            if(k == "p") return ref(conv<std::optional<const void*>>::get(j));
            if(k == "f") return ref(conv<std::optional<double>>::get(j));
            if(k == "c") return ref(conv<std::optional<utf::codepoint>>::get(j));
            if(k == "oi") return ref(conv<std::optional<std::optional<int>>>::get(j));
            bad("optional", k);
        }
        if(t == "exp")
        {
            const std::string& k = j["ok"].s;
            if(k == "is") return ref(conv<std::expected<int, string>>::get(j));
            if(k == "si") return ref(conv<std::expected<string, int>>::get(j));
            if(k == "ss") return ref(conv<std::expected<string, string>>::get(j));
            if(k == "vip") return ref(conv<std::expected<std::vector<int>, const void*>>::get(j));
            bad("expected", k);
        }
        if(t == "ti") return ref(std::type_index(j["x"].n == 0 ? typeid(int) : j["x"].n == 1 ? typeid(user::color) : typeid(std::vector<user::level*>)));
        if constexpr(classic)
            if(t == "tid") return ref(j["h"].n ? std::thread::id(static_cast<std::thread::native_handle_type>(mag(j["l"]))) : std::thread::id());
        if(t == "var")
        {
            const std::string& k = j["vk"].s;
            if(k == "nis") return ref(conv<std::variant<std::monostate, int, string>>::get(j));
            if(k == "ifb") return ref(conv<std::variant<int, double, bool>>::get(j));
            if(k == "pvt") return ref(conv<std::variant<const void*, std::vector<int>, std::pair<int, string>>>::get(j));
            bad("variant", k);
        }
        if constexpr(classic) if(t == "tm") return ref(to_tm(j));
        if(t == "path") return ref(std::filesystem::path(mini::text<CharT>(j["v"])));
        if(t == "join")
        {
            const std::string& e = j["ek"].s;
            if(e == "i") return joined<int>(j);
            if(e == "s") return joined<string>(j);
            if(e == "f") return joined<double>(j);
            if(e == "b") return joined<bool>(j);
            if(e == "p") return joined<const void*>(j);
            if(e == "c") return joined<CharT>(j);
            if(e == "cp") return joined<utf::codepoint>(j);
            if(e == "vi") return joined<std::vector<int>>(j);
            if(e == "pis") return joined<std::pair<int, string>>(j);
            bad("joined element", e);
        }
        if(t == "u") return j["big"].n ? userobj<true>(j) : userobj<false>(j);
        bad("value", t);
    }
};

// A locale with its own names of truth values
template <typename CharT>
class names : public std::numpunct<CharT>
{
    std::basic_string<CharT> m_t, m_f;

public:
    names(std::basic_string<CharT> t, std::basic_string<CharT> f) : m_t(std::move(t)), m_f(std::move(f)) {}

protected:
    std::basic_string<CharT> do_truename() const override { return m_t; }
    std::basic_string<CharT> do_falsename() const override { return m_f; }
    // digits of stream output must not be grouped unless asked for
    CharT do_thousands_sep() const override { return static_cast<CharT>('\''); }
    std::string do_grouping() const override { return "\3"; }
};

// Dates with every conversion in a frame
template <typename CharT>
class dates : public std::time_put<CharT>
{
    CharT m_op, m_cl;

public:
    using iter_type = typename std::time_put<CharT>::iter_type;
    dates(char op, char cl) : m_op(static_cast<CharT>(op)), m_cl(static_cast<CharT>(cl)) {}

protected:
    iter_type do_put(iter_type out, std::ios_base& io, CharT fill, const std::tm* t, char f, char m) const override
    {
        *out++ = m_op;
        out = std::time_put<CharT>::do_put(out, io, fill, t, f, m);
        *out++ = m_cl;
        return out;
    }
};

// The locale that a case asks for
template <typename CharT>
std::locale make_locale(const J& A)
{
    const std::locale l(std::locale::classic(), new names<CharT>(mini::text<CharT>(A["tn"]), mini::text<CharT>(A["fn"])));
    return std::locale(l, new dates<CharT>('[', ']'));
}

// The global locale is another one: nothing may depend on it
inline const std::locale classic_before = [] {
    std::locale l(std::locale::classic(), new names<char>("GT", "GF"));
    l = std::locale(l, new names<wchar_t>(L"GT", L"GF"));
    l = std::locale(l, new dates<char>('(', ')'));
    return std::locale::global(std::locale(l, new dates<wchar_t>('(', ')')));
}();
} // namespace val
