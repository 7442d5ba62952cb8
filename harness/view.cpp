#include "syms.hpp"
#include <sstream>
using namespace hist;
namespace utf = papilio::utf;
using papilio::index_range;
using papilio::reverse_index;
using utf::substr_behavior;
using list_t = std::vector<long long>;
static const long long NPOS = 99;

static std::vector<int> ints(const J& j)
{
    std::vector<int> r;
    for(auto& e : j.a) r.push_back(e.i());
    return r;
}
template <typename F>
list_t guarded(F&& f)
{
    try { return f(); }
    catch(const std::out_of_range&) { return {-2}; }
}

template <typename C>
struct world
{
    using S = utf::basic_string_container<C>;
    using R = utf::basic_string_ref<C>;
    using V = std::basic_string_view<C>;
    using str = std::basic_string<C>;
    str text;
    R v;

    static std::size_t bound(long long n) { return n == NPOS ? utf::npos : static_cast<std::size_t>(n); }
    static index_range range(const J& op, std::size_t h)
    {
        papilio::ssize_t a = static_cast<papilio::ssize_t>(op[1].n), b = op[2].n == NPOS ? index_range::npos : static_cast<papilio::ssize_t>(op[2].n);
        if(a == 0 && b == index_range::npos && h % 2) return index_range();
        if(b == index_range::npos && h % 2) return index_range(a);
        return index_range(a, b);
    }
    static long long pos(const auto& s, auto it)
    {
        long long n = 0;
        for(auto i = s.cbegin(); i != it; ++i)
        {
            if(i == s.cend()) return -70;
            ++n;
        }
        return n;
    }

    // the unchecked access where the class has it
    template <typename T>
    static bool same_index(const T& s, utf::codepoint c, auto... i)
    {
#ifdef PAPILIO_HAS_MULTIDIMENSIONAL_SUBSCRIPT
        if constexpr(requires { s[i...]; }) if(c != utf::codepoint(s[i...])) return false;
#endif
        if constexpr(requires { s.index(i...); }) return c == utf::codepoint(s.index(i...));
        else return true;
    }
    // what every string class answers
    template <typename T>
    static list_t ask(const T& s, const J& op, std::size_t h)
    {
        const std::string& o = op[0].s;
        auto num = [&](int i) { return static_cast<std::size_t>(op[i].n); };
        auto cp = [&](int i) { return utf::codepoint(table[op[i].i()]); };
        str u = op.size() > 1 && op[1].k == J::arr ? txt<C>(ints(op[1])) : str();
        auto off = [](std::size_t x) { return x == utf::npos ? list_t{-1} : list_t{static_cast<long long>(x)}; };
        if(o == "len")
        {
            bool ok = s.empty() == (s.length() == 0) && static_cast<std::size_t>(pos(s, s.cend())) == s.length();
            return {ok ? static_cast<long long>(s.length()) : -71};
        }
        if(o == "size") return {s.size() == s.to_string_view().size() ? static_cast<long long>(s.size()) : -71};
        if(o == "off") return off(s.get_offset(num(1)));
        if(o == "roff") return off(s.get_offset(reverse_index, num(1)));
        if(o == "at")
            return guarded([&]() -> list_t {
                utf::codepoint c = s.at(num(1));
                bool ok = c == utf::codepoint(s[num(1)]) && same_index(s, c, num(1)) && char32_t(s[num(1)]) == char32_t(c) && (num(1) != 0 || c == s.front());
                return {ok ? symbol(c) : -71};
            });
        if(o == "rat")
            return guarded([&]() -> list_t {
                utf::codepoint c = s.at(reverse_index, num(1));
                bool ok = same_index(s, c, reverse_index, num(1)) && (num(1) != 0 || c == s.back());
                return {ok ? symbol(c) : -71};
            });
        if(o == "or") return {symbol(s.index_or(num(1), cp(2)))};
        if(o == "ror") return {symbol(s.index_or(reverse_index, num(1), cp(2)))};
        if(o == "fwd")
        {
            list_t r, r2;
            for(auto it = s.cbegin(); it != s.cend(); ++it) r.push_back(symbol(char32_t(*it)));
            for(utf::codepoint c : s) r2.push_back(symbol(c));
            return r == r2 ? r : list_t{-71};
        }
        if(o == "bwd")
        {
            list_t r, r2;
            for(auto it = s.crbegin(); it != s.crend(); it++) r.push_back(symbol(utf::codepoint(*it)));
            for(auto it = s.cend(); it != s.cbegin();) r2.push_back(symbol(char32_t(*--it)));
            return r == r2 ? r : list_t{-71};
        }
        if(o == "nth")
        {
            auto i = s.cbegin() + op[1].n;
            auto j = s.cend();
            j -= static_cast<long long>(s.length()) - op[2].n;
            bool ok = (i == j) == (op[1].n == op[2].n) && (i < j) == (op[1].n < op[2].n) && i - j == op[1].n - op[2].n && i + (op[2].n - op[1].n) == j && j - (op[2].n - op[1].n) == i;
            if(i != s.cend()) ok = ok && symbol(char32_t(*i)) == symbol(s.at(num(1)));
            return {ok ? j - i : -71};
        }
        if(o == "findc") return {pos(s, op[2].n == 0 && h % 2 ? s.find(cp(1)) : s.find(cp(1), num(2)))};
        if(o == "hasc") return {s.contains(cp(1))};
        if(o == "swc") return {s.starts_with(cp(1))};
        if(o == "find")
        {
            list_t r{pos(s, s.find(V(u), num(2)))};
            if constexpr(std::is_same_v<T, R>)
            {
                str more = u + static_cast<C>('x');
                if(pos(s, s.find(R(u), num(2))) != r[0] || pos(s, s.find(u.c_str(), num(2))) != r[0] || pos(s, s.find(more.c_str(), num(2), u.size())) != r[0]) return {-71};
                if(num(2) == 0 && pos(s, s.find(R(u))) != r[0]) return {-71};
            }
            return r;
        }
        if(o == "has")
        {
            bool b = s.contains(V(u));
            if constexpr(std::is_same_v<T, R>) if(s.contains(R(u)) != b || s.contains(u.c_str()) != b) return {-71};
            return {b};
        }
        if(o == "sw")
        {
            bool b = s.starts_with(V(u));
            if(s.starts_with(u.c_str()) != b) return {-71};
            if constexpr(std::is_same_v<T, R>) if(s.starts_with(R(u)) != b) return {-71};
            return {b};
        }
        if constexpr(std::is_same_v<T, R>)
        {
            if(o == "ew") return {s.ends_with(V(u)) == s.ends_with(R(u)) && s.ends_with(u.c_str()) == s.ends_with(R(u)) ? s.ends_with(R(u)) : -71};
            if(o == "ewc") return {s.ends_with(cp(1))};
            if(o == "conv")
            {
                auto r = symbols<C>(s.to_string_view());
                auto same = [&](const auto& x) { return symbols<typename std::remove_cvref_t<decltype(x)>::value_type>(x) == r; };
                bool ok = same(s.template to_string<char>()) && same(s.template to_string<char8_t>()) && same(s.template to_string<char16_t>()) && same(s.template to_string<char32_t>()) && same(s.template to_string<wchar_t>())
                          && same(s.to_u8string()) && same(s.to_u16string()) && same(s.to_u32string()) && same(s.to_wstring()) && same(s.to_string());
                if constexpr(std::is_same_v<C, char> || std::is_same_v<C, wchar_t>)
                {
                    std::basic_ostringstream<C> os;
                    os << s;
                    ok = ok && os.str() == s.to_string_view();
                }
                return ok ? r : list_t{-71};
            }
        }
        if(o == "cmp")
        {
            auto sign = [](auto q) { return q < 0 ? -1 : q > 0 ? 1 : 0; };
            int c = sign(s.compare(R(u)));
            bool ok = true;
            auto with = [&](const auto& w) { // a string in some encoding
                using D = typename std::remove_cvref_t<decltype(w)>::value_type;
                using W = utf::basic_string_ref<D>;
                using B = std::basic_string_view<D>;
                W r(w);
                ok = ok && sign(s.compare(r)) == c && sign(s.compare(w)) == c && sign(s.compare(w.c_str())) == c && sign(s.compare(B(w))) == c;
                ok = ok && sign(s <=> w) == c && sign(s <=> B(w)) == c && sign(s <=> w.c_str()) == c && sign(w <=> s) == -c && sign(B(w) <=> s) == -c && sign(w.c_str() <=> s) == -c;
                ok = ok && (s == r) == (c == 0) && (s == w) == (c == 0) && (s == B(w)) == (c == 0) && (s == w.c_str()) == (c == 0) && (w == s) == (c == 0) && (B(w) == s) == (c == 0) && (w.c_str() == s) == (c == 0) && (r == s) == (c == 0);
                ok = ok && (s < w) == (c < 0) && (s >= w) == (c >= 0) && (s != w) == (c != 0);
                if constexpr(std::is_same_v<T, R>) ok = ok && sign(s <=> r) == c;
            };
            auto t = ints(op[1]);
            with(txt<char>(t)); with(txt<char8_t>(t)); with(txt<char16_t>(t)); with(txt<char32_t>(t)); with(txt<wchar_t>(t));
            return {ok ? c : -71};
        }
        return {-60}; // not asked of this class
    }

    // slices of every string class: what they hold and the answer
    template <typename T>
    static std::pair<list_t, list_t> slice(const T& s, const J& op, std::size_t h, T* keep = nullptr)
    {
        const std::string& o = op[0].s;
        list_t got;
        auto take = [&](T t) { got = symbols<C>(t.to_string_view()); if(keep) *keep = t; };
        list_t e = guarded([&]() -> list_t {
            constexpr auto X = substr_behavior::exception;
            constexpr auto E = substr_behavior::empty_string;
            std::size_t i = bound(op[1].n), n = bound(op[2].n);
            auto ext = [&](std::pair<T, std::size_t> p) { bool ok = p.first.length() == p.second; take(p.first); return list_t{ok ? static_cast<long long>(p.second) : -71}; };
            if(o == "subx")
            {
                if(h % 3 == 0) return ext(s.template substr_extended<X>(i, n));
                T t = h % 3 == 1 ? s.substr(i, n) : n == utf::npos ? s.substr(i) : s.template substr<X>(i, n);
                take(t);
                return {static_cast<long long>(t.length())};
            }
            if(o == "subs")
            {
                if(h % 2) return ext(s.template substr_extended<E>(i, n));
                T t = s.template substr<E>(i, n);
                take(t);
                return {static_cast<long long>(t.length())};
            }
            if(o == "sublx") { take(s.template substr<X>(range(op, h))); return {}; }
            take(s.template substr<E>(range(op, h)));
            return {};
        });
        if(e == list_t{-2}) got = symbols<C>(s.to_string_view());
        return {e, got};
    }

    list_t apply(const J& op, std::size_t h)
    {
        const std::string& o = op[0].s;
        auto num = [&](int i) { return static_cast<std::size_t>(op[i].n); };
        if(o == "set")
        {
            text = txt<C>(ints(op[1]));
            switch(h % 6)
            {
            case 0: v = R(text); break;
            case 1: v = R(text.data(), text.size()); break;
            case 2: v = text.c_str(); break;
            case 3: v = V(text); break;
            case 4: v = R(text.begin(), text.end()); break;
            default: v = std::as_const(text); break;
            }
            return {};
        }
        if(o == "rp") { v.remove_prefix(num(1)); return {}; }
        if(o == "rs") { v.remove_suffix(num(1)); return {}; }
        if(o == "asg")
        {
            auto i = v.begin() + op[1].n, j = v.begin() + op[2].n;
            if(h % 2) v.assign(i, j); else v = R(i, j);
            return {};
        }
        S borrowed(v.to_string_view()), own(papilio::independent, borrowed);
        if(o == "subx" || o == "subs" || o == "sublx" || o == "subls")
        {
            auto a = slice(borrowed, op, h), b = slice(own, op, h);
            R kept = v;
            auto c = slice(v, op, h, &kept);
            v = kept;
            return a == c && b == c ? c.first : list_t{-72};
        }
        auto r = ask(v, op, h);
        auto a = ask(borrowed, op, h), b = ask(own, op, h);
        if((a != r && a != list_t{-60}) || (b != r && b != list_t{-60})) return {-72};
        if(borrowed.has_ownership()) return {-73}; // a question makes no copy
        R empty, w = v;
        empty.swap(w);
        if(!w.empty() || empty.to_string_view().data() != v.to_string_view().data() || empty.size() != v.size()) return {-74};
        return r;
    }

    std::string run(const J& j)
    {
        std::string out = "[";
        auto& ops = j["ops"].a;
        for(std::size_t n = 0; n < ops.size(); ++n)
        {
            bool legal = ops[n][0].s != "asg" || (ops[n][1].n <= ops[n][2].n && ops[n][2].n <= static_cast<long long>(symbols<C>(v.to_string_view()).size()));
            if(ops[n][0].s == "nth") { auto l = static_cast<long long>(symbols<C>(v.to_string_view()).size()); legal = ops[n][1].n <= l && ops[n][2].n <= l; }
            list_t e;
            if(legal) e = apply(ops[n], n + static_cast<std::size_t>(j["h"].n));
            V x = v.to_string_view();
            bool in = x.empty() || (x.data() >= text.data() && x.data() + x.size() <= text.data() + text.size());
            out += std::string(n ? "," : "") + "{\"x\":" + (legal ? "0" : "1") + ",\"e\":" + list(e) + ",\"w\":" + list(in ? symbols<C>(x) : list_t{-80}) + "}";
        }
        return out + ",{\"end\":0}]";
    }
};
int main(int argc, char** argv)
{
    return mini::run_cases(argc, argv, [](const J& j) {
        switch(j["ek"].n)
        {
        case 0: return world<char>().run(j);
        case 1: return world<char16_t>().run(j);
        case 2: return world<char32_t>().run(j);
        case 3: return world<wchar_t>().run(j);
        default: return world<char8_t>().run(j);
        }
    });
}
