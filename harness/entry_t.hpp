// Formats one script through every entry point of the library.
#pragma once
#include "values.hpp"
#include <papilio/color.hpp>
#include <papilio/print.hpp>
#include <papilio/xchar.hpp>
#include <deque>
#include <list>
#include <optional>
#include <sstream>
#include <unistd.h>

namespace entry
{
using mini::J;

inline papilio::text_style style_of(const J& ops)
{
    papilio::text_style st;
    for(auto& op : ops.a)
    {
        if(op[0].s == "s") st |= static_cast<papilio::style>(1 << (op[1].n - 1));
        else if(op[0].s == "f") st = st | papilio::fg(static_cast<papilio::color>(op[1].n ? 29 + op[1].n : 0));
        else st = papilio::bg(static_cast<papilio::color>(op[1].n ? 29 + op[1].n : 0)) | st;
    }
    return st;
}

inline std::string contents(std::FILE* f)
{
    std::string r;
    std::rewind(f);
    char buf[512];
    while(std::size_t n = std::fread(buf, 1, sizeof buf, f)) r.append(buf, n);
    std::fclose(f);
    return r;
}
// what f writes to the standard output
template <typename F>
std::string captured(F&& f)
{
    std::FILE* t = std::tmpfile();
    std::fflush(stdout);
    int old = dup(1);
    dup2(fileno(t), 1);
    auto back = [&] { std::fflush(stdout); dup2(old, 1); close(old); };
    try { f(); }
    catch(...) { back(); std::fclose(t); throw; }
    back();
    return contents(t);
}

template <typename C>
struct world
{
    using str = std::basic_string<C>;
    using view = std::basic_string_view<C>;
    static constexpr bool narrow = std::is_same_v<C, char>;
    static constexpr bool classic = narrow || std::is_same_v<C, wchar_t>;
    view fmt;
    long long i;
    str s;
    std::vector<int> v;
    bool b;
    std::vector<char32_t> utext;
    user::cls<false> u;
    str x;
    long long n;
    str name_x = str(1, C('x')), name_n = str(1, C('n'));
    const std::locale* loc;

    template <typename F>
    auto args(F&& f)
    {
        return f(i, s, v, b, u, papilio::arg(view(name_x), x), papilio::arg(view(name_n), n));
    }
    // with the locale where there is one
    template <typename F>
    auto with(F&& f)
    {
        return args([&](auto&&... a) {
            if constexpr(classic)
            {
                if(loc) { std::locale l(*loc); return f(l, fmt, a...); } // format_to takes a mutable one
            }
            return f(fmt, a...);
        });
    }

    std::pair<str, long long> form(const J& j)
    {
        const std::string& f = j["f"].s;
        auto limit = static_cast<std::ptrdiff_t>(j["n"].n);
        if(f == "format") return {with([](auto&&... a) { return papilio::format(a...); }), 0};
        if(f == "vformat")
        {
            auto r = args([&](auto&&... a) {
                auto st = papilio::make_format_args<papilio::basic_format_context<papilio::format_iterator_for<C>, C>>(a...);
                if constexpr(classic) { if(loc) return papilio::vformat(*loc, fmt, st); }
                return papilio::vformat(fmt, st);
            });
            return {r, 0};
        }
        if(f == "dyn")
        {
            papilio::basic_dynamic_format_args<papilio::basic_format_context<papilio::format_iterator_for<C>, C>, C> d;
            return args([&](auto&&... a) -> std::pair<str, long long> {
                if(j["n"].n) d.append(a...); else (d.emplace(a), ...);
                if constexpr(classic) { if(loc) return {papilio::vformat(*loc, fmt, d), 0}; }
                return {papilio::vformat(fmt, d), 0};
            });
        }
        if(f == "to_back") { str o = str(2, C('<')); with([&](auto&&... a) { papilio::format_to(std::back_inserter(o), a...); }); return {o.substr(2), o[0] == C('<') ? 0 : -1}; }
        if(f == "to_vec") { std::vector<C> o; with([&](auto&&... a) { papilio::format_to(std::back_inserter(o), a...); }); return {str(o.begin(), o.end()), 0}; }
        if(f == "to_deq") { std::deque<C> o(1, C('x')); with([&](auto&&... a) { papilio::format_to(std::inserter(o, o.begin()), a...); }); if(o.empty() || o.back() != C('x')) return {{}, -1}; o.pop_back(); return {str(o.begin(), o.end()), 0}; }
        if(f == "to_ptr")
        {
            std::size_t k = with([](auto&&... a) { return papilio::format(a...).size(); });
            std::unique_ptr<C[]> o(new C[k]);
            C* e = with([&](auto&&... a) { return papilio::format_to(o.get(), a...); });
            return {str(o.get(), e), e == o.get() + k ? 0 : -1};
        }
        if(f == "vto_back")
        {
            str o;
            using it = std::back_insert_iterator<str>;
            args([&](auto&&... a) {
                auto st = papilio::make_format_args<papilio::basic_format_context<it, C>>(a...);
                if constexpr(classic) { if(loc) { papilio::vformat_to(it(o), *loc, fmt, st); return; } }
                papilio::vformat_to(it(o), fmt, st);
            });
            return {o, 0};
        }
        if(f == "vto_list")
        {
            std::list<C> o;
            using it = std::back_insert_iterator<std::list<C>>;
            args([&](auto&&... a) {
                auto st = papilio::make_format_args<papilio::basic_format_context<it, C>>(a...);
                if constexpr(classic) { if(loc) { papilio::vformat_to(it(o), *loc, fmt, st); return; } }
                papilio::vformat_to(it(o), fmt, st);
            });
            return {str(o.begin(), o.end()), 0};
        }
        if(f == "n_ptr")
        {
            std::unique_ptr<C[]> o(new C[static_cast<std::size_t>(limit)]);
            auto r = nform([&](auto&&... a) { return papilio::format_to_n(o.get(), limit, a...); });
            if(r.out != o.get() + r.size) return {{}, -1};
            return {str(o.get(), r.out), r.size};
        }
        if(f == "n_back")
        {
            str o;
            auto r = nform([&](auto&&... a) { return papilio::format_to_n(std::back_inserter(o), limit, a...); });
            *r.out++ = C('.');
            if(o.back() != C('.')) return {{}, -1};
            o.pop_back();
            return {o, r.size};
        }
        if(f == "n_list")
        {
            std::list<C> o(static_cast<std::size_t>(limit) + 1, C('_'));
            auto r = nform([&](auto&&... a) { return papilio::format_to_n(o.begin(), limit, a...); });
            if(std::distance(o.begin(), r.out) != r.size) return {{}, -1};
            for(auto p = r.out; p != o.end(); ++p) if(*p != C('_')) return {{}, -2};
            return {str(o.begin(), r.out), r.size};
        }
        if(f == "size") return {{}, static_cast<long long>(with([](auto&&... a) { return papilio::formatted_size(a...); }))};
        if(f == "range")
        {
            return args([&](auto&&... a) -> std::pair<str, long long> {
                auto st = papilio::make_format_args<papilio::basic_format_context<papilio::format_iterator_for<C>, C>>(a...);
                papilio::formatted_range<C> rng(fmt, st);
                str o;
                long long h = j["n"].n, k = 0;
                if(h == 0) { for(C c : rng) o.push_back(c); return {o, 0}; }
                auto it = rng.begin();
                if(h == 2) { auto other = rng.begin(); it = std::move(other); }
                while(it != rng.end())
                {
                    if((k + h) % 3 == 0 && it == rng.end()) return {{}, -1};
                    C c = *it;
                    if((k + h) % 4 == 0 && *it != c) return {{}, -2};
                    if(h > 3 && k % h == 1)
                    {
                        auto moved = std::move(it); // carries on where the other was
                        if(*moved != c) return {{}, -3};
                        it = std::move(moved);
                    }
                    o.push_back(c);
                    if(k % 2) ++it; else it++;
                    ++k;
                }
                return {o, it == rng.end() ? 0 : -4};
            });
        }
        if constexpr(narrow)
        {
            if(f == "os" || f == "osln")
            {
                std::ostringstream o;
                o.imbue(loc ? *loc : std::locale::classic());
                args([&](auto&&... a) { if(f == "os") papilio::print(o, fmt, a...); else papilio::println(o, fmt, a...); });
                return {o.str(), 0};
            }
            if(f == "nl") // the forms without a script; n: where to
            {
                if(limit == 0) { std::ostringstream o; papilio::println(o); return {o.str(), 0}; }
                if(limit == 1) { std::FILE* t = std::tmpfile(); papilio::println(t); return {contents(t), 0}; }
                return {captured([&] { papilio::println(); }), 0};
            }
            if(f == "twice")
            {
                if(limit == 0)
                {
                    std::ostringstream o;
                    o.imbue(loc ? *loc : std::locale::classic());
                    args([&](auto&&... a) { papilio::println(o, fmt, a...); papilio::print(o, fmt, a...); });
                    return {o.str(), 0};
                }
                auto both = [&](std::FILE* t) { args([&](auto&&... a) { if(limit == 1) { papilio::println(t, fmt, a...); papilio::print(t, fmt, a...); } else { papilio::println(fmt, a...); papilio::print(fmt, a...); } }); };
                if(limit == 2) return {captured([&] { both(stdout); }), 0};
                std::FILE* t = std::tmpfile();
                try { both(t); }
                catch(...) { std::fclose(t); throw; }
                return {contents(t), 0};
            }
            if(f == "file" || f == "fileln")
            {
                std::FILE* t = std::tmpfile();
                try { args([&](auto&&... a) { if(f == "file") papilio::print(t, fmt, a...); else papilio::println(t, fmt, a...); }); }
                catch(...) { std::fclose(t); throw; }
                return {contents(t), 0};
            }
            if(f == "out" || f == "outln") return {captured([&] { args([&](auto&&... a) { if(f == "out") papilio::print(fmt, a...); else papilio::println(fmt, a...); }); }), 0};
            if(f == "sty") // the first two arguments wrapped
            {
                auto st = style_of(j["st"]);
                return {papilio::format(fmt, papilio::styled(st, i), papilio::styled(st, s), v, b, u, papilio::arg(view(name_x), x), papilio::arg(view(name_n), n)), 0};
            }
            if(f == "st" || f == "stln")
            {
                auto st = style_of(j["st"]);
                return {captured([&] { args([&](auto&&... a) { if(f == "st") papilio::print(st, fmt, a...); else papilio::println(st, fmt, a...); }); }), 0};
            }
        }
        return {{}, -60};
    }
    template <typename F>
    auto nform(F&& f) { return with(std::forward<F>(f)); }

    static long long number(const J& j)
    {
        unsigned long long m = 0;
        for(int k = 3; k >= 0; --k) m = m << 16 | static_cast<unsigned long long>(j["l"][k].n);
        return static_cast<long long>(j["g"].n ? 0 - m : m);
    }
    explicit world(const J& A)
        : i(number(A["pos"][0])), s(mini::text<C>(A["pos"][1]["v"])), b(A["pos"][3]["v"].n != 0), x(mini::text<C>(A["nam"][0]["v"]["v"])), n(number(A["nam"][1]["v"]))
    {
        for(auto& e : A["pos"][4]["v"].a) utext.push_back(static_cast<char32_t>(e.n));
        u.text = &utext;
        u.c = static_cast<char32_t>(A["pos"][4]["c"][0].n);
        for(auto& e : A["pos"][2]["v"].a) v.push_back(static_cast<int>(number(e)));
    }
};

template <typename C>
std::string run(const J& j)
{
    const J& A = j["A"];
    world<C> w(A);
    // nothing readable after the end of the script
    auto s0 = mini::text<C>(j["s"]);
    std::unique_ptr<C[]> buf(new C[s0.size() ? s0.size() : 1]);
    std::copy(s0.begin(), s0.end(), buf.get());
    w.fmt = std::basic_string_view<C>(buf.get(), s0.size());
    std::optional<std::locale> loc;
    w.loc = nullptr;
    if constexpr(world<C>::classic)
    {
        if(A["loc"].n)
        {
            loc.emplace(val::make_locale<C>(A));
            w.loc = &*loc;
        }
    }
    std::string r = "[";
    for(auto& f : j["forms"].a)
    {
        if(r.size() > 1) r += ",";
        try
        {
            auto [o, n] = w.form(f);
            r += "{\"ok\":1,\"e\":\"\",\"o\":" + mini::units(o) + ",\"n\":" + std::to_string(n) + "}";
        }
        catch(...)
        {
            r += "{\"ok\":0,\"e\":\"" + mini::error_name() + "\",\"o\":[],\"n\":0}";
        }
    }
    return r + "]";
}
} // namespace entry
