// Code units, code points, and texts in every encoding.
#include "mini.hpp"
#include <set>
#include <sstream>
using mini::J;
namespace utf = papilio::utf;
using papilio::reverse_index;
using utf::codepoint;

// exactly as much memory as the text needs
template <typename C>
struct text
{
    std::unique_ptr<C[]> p;
    std::size_t n;
    explicit text(const J& j, bool zero = false) : p(new C[j.size() + zero]), n(j.size())
    {
        for(std::size_t i = 0; i < n; ++i) p[i] = static_cast<C>(j[i].n);
        if(zero) p[n] = C(0);
    }
    std::basic_string_view<C> sv() const { return {p.get(), n}; }
};

template <typename F>
std::string guarded(F&& f)
{
    try { return std::to_string(static_cast<long long>(f())); }
    catch(const utf::invalid_byte&) { return "-2"; }
    catch(const utf::invalid_surrogate&) { return "-2"; }
    catch(const std::out_of_range&) { return "-3"; }
    catch(const std::exception&) { return "-4"; }
}
static long long off(std::size_t o) { return o == utf::npos ? -1 : static_cast<long long>(o); }

template <typename F>
std::string list(std::size_t n, F&& f)
{
    std::string r = "[";
    for(std::size_t i = 0; i < n; ++i) r += (i ? "," : "") + f(i);
    return r + "]";
}
template <typename F>
std::string each_mode(F&& f)
{
    using utf::strlen_behavior;
    return "[" + f(std::integral_constant<strlen_behavior, strlen_behavior::replace>()) + "," + f(std::integral_constant<strlen_behavior, strlen_behavior::ignore>()) + ","
         + f(std::integral_constant<strlen_behavior, strlen_behavior::stop>()) + "," + f(std::integral_constant<strlen_behavior, strlen_behavior::exception>()) + "]";
}
static std::string num(long long n) { return std::to_string(n); }

// everything about a sequence of units, well-formed or not
template <typename C>
std::string observe(const J& j)
{
    text<C> t(j), z(j, true);
    const auto sv = t.sv();
    const std::size_t n = t.n;
    utf::basic_string_ref<C> ref(sv);
    std::string r = "{";
    r += "\"len\":" + each_mode([&](auto m) { return guarded([&] { return utf::strlen<m.value>(sv); }); });
    r += ",\"max\":" + each_mode([&](auto m) { return list(n + 1, [&](std::size_t k) { return guarded([&] { return utf::strlen<m.value>(static_cast<const C*>(t.p.get()), k); }); }); });
    r += ",\"nul\":" + each_mode([&](auto m) { return guarded([&] { return utf::strlen<m.value>(static_cast<const C*>(z.p.get())); }); });
    r += ",\"off\":" + list(n + 2, [&](std::size_t k) { return num(off(utf::index_offset(k, sv))); });
    r += ",\"rof\":" + list(n + 2, [&](std::size_t k) { return num(off(utf::index_offset(reverse_index, k, sv))); });
    // one code point after the other, as far as there are any
    std::string seg, cps;
    const auto b = ref.begin(), e = ref.end();
    std::size_t count = 0;
    for(auto it = b; it != e && count <= n; ++it, ++count)
    {
        seg += (count ? ",[" : "[") + num(it.base() - sv.data()) + "," + num(it.size()) + "]";
        cps += (count ? "," : "") + guarded([&] { return static_cast<char32_t>(static_cast<codepoint>(*it)); });
    }
    r += ",\"seg\":[" + seg + "],\"cps\":[" + cps + "]";
    std::string back;
    std::size_t steps = 0;
    for(auto it = e; it != b && steps <= n; ++steps)
    {
        --it;
        back += (steps ? "," : "") + num(it.base() - sv.data());
    }
    r += ",\"back\":[" + back + "]";
    r += ",\"at\":" + list(n + 1, [&](std::size_t k) { return guarded([&] { return static_cast<char32_t>(ref.at(k)); }); });
    r += ",\"or\":" + list(n + 1, [&](std::size_t k) { return guarded([&] { return static_cast<char32_t>(ref.index_or(k, codepoint(U'\u2603'))); }); });
    r += ",\"rat\":" + list(n + 1, [&](std::size_t k) { return guarded([&] { return static_cast<char32_t>(ref.at(reverse_index, k)); }); });
    r += ",\"ref\":[" + num(static_cast<long long>(ref.length())) + "," + num(static_cast<long long>(ref.size())) + "," + num(ref.empty()) + "]";
    r += ",\"dec\":" + guarded([&] { return utf::decoder<C>::to_codepoint(sv).second; }) + ",\"dcp\":" + guarded([&] { return static_cast<char32_t>(utf::decoder<C>::to_codepoint(sv).first); });
    // conversions of malformed text may fail, but read nothing else
    auto conv = [&](auto c) { return guarded([&] { return ref.template to_string<decltype(c)>().size(); }); };
    r += ",\"cv\":[" + conv(char()) + "," + conv(char8_t()) + "," + conv(char16_t()) + "," + conv(char32_t()) + "," + conv(wchar_t()) + "]";
    return r + "}";
}

using distinct = std::set<std::string>;
static std::string show(const distinct& d)
{
    std::string r = "[";
    for(auto& s : d) r += (r.size() > 1 ? "," : "") + s;
    return r + "]";
}
template <typename F>
void put(distinct& d, F&& f)
{
    try { d.insert(f()); }
    catch(const std::invalid_argument&) { d.insert("[-2]"); }
    catch(const std::exception&) { d.insert("[-4]"); }
}

template <typename C>
void ways(distinct& d, codepoint cp)
{
    put(d, [&] { std::basic_string<C> s; cp.append_to(s); return mini::units(s); });
    put(d, [&] { std::basic_string<C> s; cp.append_to_as<C>(std::back_inserter(s)); return mini::units(s); });
    put(d, [&] { std::basic_string<C> s(3, C('x')); cp.replace(s, 1, 1); 
                 if(s.size() < 2 || s.front() != C('x') || s.back() != C('x')) return std::string("[-5]");
                 return mini::units(s.begin() + 1, s.end() - 1); });
    put(d, [&] { utf::basic_string_container<C> s; s.push_back(cp); return mini::units(s.to_string_view()); });
    put(d, [&] { utf::basic_string_container<C> s(1, cp); return mini::units(s.to_string_view()); });
    put(d, [&] { utf::basic_string_container<C> s; s.assign_range(std::vector<codepoint>{cp}); return mini::units(s.to_string_view()); });
}

static std::string onecp(long long n)
{
    const char32_t c = static_cast<char32_t>(n);
    const codepoint cp(c);
    distinct d8, d16, d32, dw, same;
    // its bytes
    put(d8, [&] { return mini::units(cp.u8data(), cp.u8data() + cp.size_bytes()); });
    put(d8, [&] { return mini::units(cp.data(), cp.data() + cp.size_bytes()); });
    put(d8, [&] { auto a = cp.as_array(); return mini::units(a.first.begin(), a.first.begin() + a.second); });
    put(d8, [&] { auto a = cp.as_array<char>(); return mini::units(a.first.begin(), a.first.begin() + a.second); });
    put(d8, [&] { return mini::units(std::u8string_view(cp)); });
    put(d8, [&] { return mini::units(std::string_view(cp)); });
    put(d8, [&] { std::ostringstream os; os << cp; return mini::units(os.str()); });
    put(d8, [&] { std::ostringstream os; cp.append_to(os); return mini::units(os.str()); });
    ways<char>(d8, cp);
    ways<char8_t>(d8, cp);
    put(d16, [&] { auto x = utf::decoder<char16_t>::from_codepoint(cp); return mini::units(x.get()); });
    put(d16, [&] { auto x = utf::decoder<char16_t>::from_codepoint(cp); return mini::units(std::u16string_view(x)); });
    ways<char16_t>(d16, cp);
    put(d32, [&] { auto x = utf::decoder<char32_t>::from_codepoint(cp); return "[" + num(x.first) + "]"; });
    put(d32, [&] { return "[" + num(static_cast<char32_t>(cp)) + "]"; });
    put(d32, [&] { codepoint q; q.assign(c); return "[" + num(static_cast<char32_t>(q)) + "]"; });
    ways<char32_t>(d32, cp);
    put(dw, [&] { auto x = utf::decoder<wchar_t>::from_codepoint(cp); return mini::units(x.get()); });
    put(dw, [&] { std::wostringstream os; os << cp; return mini::units(os.str()); });
    ways<wchar_t>(dw, cp);
    // read again, from every encoding: the code point and the number of units
    auto again = [&](codepoint q, long long used) { return "[" + num(static_cast<char32_t>(q)) + "," + num(q == cp && q == c && !(q != cp) && !(q < cp) && (q <=> c) == 0) + "]" + (used < 0 ? "X" : ""); };
    std::string s8; cp.append_to(s8);
    std::u8string u8; cp.append_to(u8);
    distinct r8, r16, r32;
    auto rd = [&](auto sv, auto tag) { using C = decltype(tag); auto x = utf::decoder<C>::to_codepoint(sv); return "[" + num(static_cast<char32_t>(x.first)) + "," + num(x.second) + "," + num(x.first == cp && x.first == c && x.first <= c && c >= x.first) + "]"; };
    (void)again;
    put(r8, [&] { return rd(std::string_view(s8), char()); });
    put(r8, [&] { return rd(std::u8string_view(u8), char8_t()); });
    std::string s8x = s8 + "\x80z", dummy;
    put(r8, [&] { return rd(std::string_view(s8x), char()); });
    put(r8, [&] { codepoint q(s8.data(), static_cast<std::uint8_t>(s8.size())); return "[" + num(static_cast<char32_t>(q)) + "," + num(q.size_bytes()) + "," + num(q == cp) + "]"; });
    put(r8, [&] { codepoint q; q.assign(u8.data(), static_cast<std::uint8_t>(u8.size())); return "[" + num(static_cast<char32_t>(q)) + "," + num(q.size_bytes()) + "," + num(q == cp) + "]"; });
    put(r8, [&] { char a[4] = {}; std::copy(s8.begin(), s8.end(), a); codepoint q; q.assign(std::span<const char, 4>(a)); return "[" + num(static_cast<char32_t>(q)) + "," + num(q.size_bytes()) + "," + num(q == cp) + "]"; });
    put(r8, [&] { char8_t a[4] = {}; std::copy(u8.begin(), u8.end(), a); codepoint q(std::span<const char8_t, 4>{a}); return "[" + num(static_cast<char32_t>(q)) + "," + num(q.size_bytes()) + "," + num(q == cp) + "]"; });
#if 1
    put(r8, [&] { char a[4] = {}; std::copy(s8.begin(), s8.end(), a); codepoint q(std::span<char, 4>{a}); return "[" + num(static_cast<char32_t>(q)) + "," + num(q.size_bytes()) + "," + num(q == cp) + "]"; });
#endif
    put(r8, [&] { return "[" + num(static_cast<char32_t>(cp)) + "," + num(utf::decoder<char32_t>::size_bytes(c)) + "," + num(utf::decoder<char>::size_bytes(s8[0]) == s8.size() && utf::decoder<char8_t>::size_bytes(u8[0]) == u8.size()) + "]"; });
    put(r16, [&] {
        std::u16string s; cp.append_to(s);
        return rd(std::u16string_view(s), char16_t());
    });
    put(r16, [&] {
        std::u16string s; cp.append_to(s);
        s.push_back(u'\xDC00');
        return rd(std::u16string_view(s), char16_t());
    });
    put(r16, [&] {
        std::u16string s; cp.append_to(s);
        auto x = utf::decoder<char16_t>::to_char32_t(s);
        return "[" + num(x.first) + "," + num(x.second) + ",1]";
    });
    put(r16, [&] {
        std::u16string s; cp.append_to(s);
        auto x = s.size() == 2 ? utf::decoder<char16_t>::to_char32_t(s[0], s[1]) : utf::decoder<char16_t>::to_char32_t(s[0]);
        return "[" + num(x.first) + "," + num(x.second) + ",1]";
    });
    put(r16, [&] {
        std::u16string s; cp.append_to(s);
        auto x = s.size() == 2 ? utf::decoder<char16_t>::to_codepoint(s[0], s[1]) : utf::decoder<char16_t>::to_codepoint(s[0]);
        return "[" + num(static_cast<char32_t>(x.first)) + "," + num(x.second) + "," + num(x.first == cp) + "]";
    });
    std::u32string s32(1, c);
    std::wstring sw(1, static_cast<wchar_t>(c));
    put(r32, [&] { return rd(std::u32string_view(s32), char32_t()); });
    put(r32, [&] { auto x = utf::decoder<char32_t>::to_codepoint(c); return "[" + num(static_cast<char32_t>(x.first)) + "," + num(x.second) + ",1]"; });
    put(r32, [&] { s32.push_back(U'x'); return rd(std::u32string_view(s32), char32_t()); });
    put(r32, [&] { return rd(std::wstring_view(sw), wchar_t()); });
    put(r32, [&] { auto x = utf::decoder<wchar_t>::to_char32_t(sw); return "[" + num(x.first) + "," + num(x.second) + ",1]"; });
    // what it is
    std::string q = "[" + num(utf::is_digit(c)) + "," + num(cp.is_digit()) + "," + num(utf::is_whitespace(c)) + "," + num(static_cast<long long>(cp.estimate_width())) + "," + num(cp.empty()) + "," + num(static_cast<bool>(cp)) + "]";
    // order against its neighbours
    auto ord = [&](char32_t o) { codepoint k(o); 
        int a = cp < k ? -1 : cp > k ? 1 : cp == k ? 0 : 7, b = cp < o ? -1 : cp > o ? 1 : cp == o ? 0 : 7, e = o > cp ? -1 : o < cp ? 1 : o == cp ? 0 : 7;
        int f = k > cp ? -1 : k < cp ? 1 : !(k != cp) ? 0 : 7;
        return a == b && b == e && e == f ? num(a) : std::string("7"); };
    q += ",[" + ord(c ? c - 1 : 0) + "," + ord(c) + "," + ord(c + 1) + "," + ord(0x7F) + "," + ord(0x10000) + "]";
    return "[" + show(d8) + "," + show(d16) + "," + show(d32) + "," + show(dw) + "," + show(r8) + "," + show(r16) + "," + show(r32) + "," + q + "]";
}

static std::string oneunit(long long u)
{
    auto h = static_cast<std::uint16_t>(u);
    std::string r = "[" + num(utf::is_high_surrogate(h)) + "," + num(utf::is_low_surrogate(h));
    if(u < 256)
    {
        auto b = static_cast<std::uint8_t>(u);
        r += "," + num(utf::is_leading_byte(b)) + "," + num(utf::is_trailing_byte(b)) + "," + num(utf::is_leading_byte(b) ? utf::byte_count(b) : 0);
    }
    return r + "]";
}

// a well-formed text in every encoding, converted to every encoding
template <typename From, typename To>
void convert(distinct& d, const std::basic_string<From>& s)
{
    put(d, [&] { return mini::units(utf::basic_string_ref<From>(s).template to_string<To>()); });
    put(d, [&] { std::basic_string<To> r; for(codepoint cp : utf::basic_string_ref<From>(s)) cp.append_to(r); return mini::units(r); });
    put(d, [&] { std::basic_string<To> r; auto it = std::back_inserter(r); for(codepoint cp : utf::basic_string_ref<From>(s)) it = cp.append_to_as<To>(it); return mini::units(r); });
    // back and forth
    put(d, [&] { auto m = utf::basic_string_ref<From>(s).template to_string<To>();
                 auto b = utf::basic_string_ref<To>(m).template to_string<From>();
                 return mini::units(utf::basic_string_ref<From>(b).template to_string<To>()); });
    auto named = [&](const auto& x) {
        if constexpr(std::is_same_v<To, char8_t>) return x.to_u8string();
        else if constexpr(std::is_same_v<To, char16_t>) return x.to_u16string();
        else if constexpr(std::is_same_v<To, char32_t>) return x.to_u32string();
        else if constexpr(std::is_same_v<To, wchar_t>) return x.to_wstring();
        else return x.to_string();
    };
    put(d, [&] { return mini::units(named(utf::basic_string_ref<From>(s))); });
}
template <typename To>
std::string all_from(const J& j)
{
    distinct d;
    convert<char, To>(d, mini::text<char>(j));
    convert<char8_t, To>(d, mini::text<char8_t>(j));
    convert<char16_t, To>(d, mini::text<char16_t>(j));
    convert<char32_t, To>(d, mini::text<char32_t>(j));
    convert<wchar_t, To>(d, mini::text<wchar_t>(j));
    return show(d);
}
// the same text in two encodings, and another one: comparisons
template <typename A, typename B>
void cmp(distinct& d, const J& x, const J& y)
{
    auto a = mini::text<A>(x); auto b = mini::text<B>(y);
    utf::basic_string_ref<A> p(a); utf::basic_string_ref<B> q(b);
    int s = p.compare(q);
    s = s < 0 ? -1 : s > 0;
    int o = p < q ? -1 : p > q ? 1 : 0;
    d.insert(num(s == o ? s : 7) + "," + num(p == q) + "," + num(!(q != p)));
}

// a walk with an iterator
template <typename C>
std::string walk(const J& j, const J& ops)
{
    auto s = mini::text<C>(j);
    std::unique_ptr<C[]> mem(new C[s.size()]);
    std::copy(s.begin(), s.end(), mem.get());
    std::basic_string_view<C> sv(mem.get(), s.size());
    utf::basic_string_ref<C> ref(sv);
    auto it = ref.begin(), other = ref.begin();
    std::string r = "[";
    for(std::size_t k = 0; k < ops.size(); ++k)
    {
        const std::string& o = ops[k][0].s;
        long long n = ops[k].size() > 1 ? ops[k][1].n : 0;
        long long ret = 0;
        auto pos = [&](const auto& i) { return static_cast<long long>(i.base() - sv.data()); };
        if(o == "inc") ret = pos(++it);
        else if(o == "inc_") ret = pos(it++);
        else if(o == "dec") ret = pos(--it);
        else if(o == "dec_") ret = pos(it--);
        else if(o == "add") ret = pos(it += n);
        else if(o == "sub") ret = pos(it -= n);
        else if(o == "plus") { it = it + n; ret = pos(it); }
        else if(o == "sulp") { it = n + it; ret = pos(it); }
        else if(o == "minus") { it = it - n; ret = pos(it); }
        else if(o == "begin") { it = ref.cbegin(); ret = pos(it); }
        else if(o == "end") { it = ref.cend(); ret = pos(it); }
        else if(o == "swap") { if(n) swap(it, other); else it.swap(other); ret = pos(other); }
        else if(o == "mark") { other = it; ret = pos(other); }
        else if(o == "next") { it = std::next(it, n); ret = pos(it); }
        else if(o == "rev") { auto q = std::make_reverse_iterator(it); std::advance(q, n); it = q.base(); ret = pos(it); }
        else if(o == "find") { it = std::find(it, ref.end(), codepoint(static_cast<char32_t>(n))); ret = pos(it); }
        int less = it < other ? -1 : it > other ? 1 : it == other ? 0 : 7;
        bool end = it == ref.end();
        r += (k ? ",[" : "[") + num(ret) + "," + num(pos(it)) + "," + num(static_cast<long long>(it - other)) + "," + num(less) + "," + (end ? "-1,0" : num(static_cast<char32_t>(*it)) + "," + num(it.size())) + "," + num(end ? 0 : &*it - sv.data()) + "]";
    }
    return r + "]";
}

static std::string run(const J& j)
{
    const std::string& k = j["k"].s;
    if(k == "seq")
        switch(j["t"].i())
        {
        case 0: return observe<char>(j["s"]);
        case 1: return observe<char8_t>(j["s"]);
        case 2: return observe<char16_t>(j["s"]);
        case 3: return observe<char32_t>(j["s"]);
        default: return observe<wchar_t>(j["s"]);
        }
    if(k == "cps") return list(j["c"].size(), [&](std::size_t i) { return onecp(j["c"][i].n); });
    if(k == "units") return list(j["c"].size(), [&](std::size_t i) { return oneunit(j["c"][i].n); });
    if(k == "conv")
        return "[" + all_from<char>(j["s"]) + "," + all_from<char8_t>(j["s"]) + "," + all_from<char16_t>(j["s"]) + "," + all_from<char32_t>(j["s"]) + "," + all_from<wchar_t>(j["s"]) + "]";
    if(k == "cmp")
    {
        distinct d;
        auto row = [&](auto a) {
            using A = decltype(a);
            cmp<A, char>(d, j["s"], j["y"]); cmp<A, char8_t>(d, j["s"], j["y"]); cmp<A, char16_t>(d, j["s"], j["y"]); cmp<A, char32_t>(d, j["s"], j["y"]); cmp<A, wchar_t>(d, j["s"], j["y"]);
        };
        row(char()); row(char8_t()); row(char16_t()); row(char32_t()); row(wchar_t());
        std::string r = "[";
        for(auto& x : d) r += (r.size() > 1 ? ",[" : "[") + x + "]";
        return r + "]";
    }
    if(k == "walk")
        switch(j["t"].i())
        {
        case 0: return walk<char>(j["s"], j["ops"]);
        case 1: return walk<char8_t>(j["s"], j["ops"]);
        case 2: return walk<char16_t>(j["s"], j["ops"]);
        case 3: return walk<char32_t>(j["s"], j["ops"]);
        default: return walk<wchar_t>(j["s"], j["ops"]);
        }
    std::exit(3);
}
int main(int argc, char** argv) { return mini::run_cases(argc, argv, run); }
