#include "syms.hpp"
#include <sstream>
using namespace hist;
namespace utf = papilio::utf;

template <typename C>
struct world
{
    using S = utf::basic_string_container<C>;
    using R = utf::basic_string_ref<C>;
    using V = std::basic_string_view<C>;
    using str = std::basic_string<C>;
    struct slot
    {
        std::optional<S> v;
        bool moved = false;
    };
    std::vector<slot> s;
    std::vector<str> b;
    std::vector<std::vector<int>> bs;

    static std::vector<int> ints(const J& j)
    {
        std::vector<int> r;
        for(auto& e : j.a) r.push_back(e.i());
        return r;
    }
    std::size_t off(std::size_t i, int k) { return txt<C>(std::vector<int>(bs[i].begin(), bs[i].begin() + k)).size(); }
    V part(std::size_t i, int lo, int hi) { std::size_t x = off(i, lo); return V(b[i]).substr(x, off(i, hi) - x); }

    std::vector<long long> look(S& c)
    {
        const S& k = c;
        auto want = symbols<C>(k.to_string_view());
        bool ok = k.size() == k.to_string_view().size() && k.empty() == want.empty() && k.length() == want.size() && k.data() == k.to_string_view().data() && V(k) == k.to_string_view() && V(R(k)) == k.to_string_view();
        std::size_t i = 0;
        for(utf::codepoint cp : k) { ok = ok && i < want.size() && symbol(cp) == want[i]; ++i; }
        ok = ok && i == want.size();
        for(auto it = k.rbegin(); it != k.rend(); ++it) { --i; ok = ok && i < want.size() && symbol(*it) == want[i]; }
        ok = ok && i == 0;
        for(auto it = c.begin(); it != c.end(); ++it) { ok = ok && i < want.size() && symbol(static_cast<char32_t>(*it)) == want[i]; ++i; }
        ok = ok && i == want.size();
        for(auto it = c.end(); it != c.begin();) { --it; --i; ok = ok && i < want.size() && symbol(static_cast<char32_t>(*it)) == want[i]; }
        for(std::size_t n = 0; n < want.size(); ++n)
            ok = ok && symbol(k.at(n)) == want[n] && symbol(static_cast<utf::codepoint>(k[n])) == want[n] && symbol(static_cast<char32_t>(c[n])) == want[n] && symbol(static_cast<char32_t>(c.index(papilio::reverse_index, n))) == want[want.size() - 1 - n];
        if(!want.empty()) ok = ok && symbol(k.front()) == want.front() && symbol(k.back()) == want.back();
        ok = ok && (k.has_ownership() ? k.capacity() >= k.size() : k.capacity() == 0);
        if(!ok) want.push_back(-99);
        return want;
    }

    std::string run(const J& j)
    {
        for(auto& e : j["B"].a) { bs.push_back(ints(e)); b.push_back(txt<C>(bs.back())); }
        s.resize(static_cast<std::size_t>(j["NS"].n));
        std::string out = "[";
        auto& ops = j["ops"].a;
        for(std::size_t n = 0; n < ops.size(); ++n)
        {
            std::vector<long long> e;
            bool legal = possible(ops[n]);
            if(legal) e = apply(ops[n], n + static_cast<std::size_t>(j["h"].n));
            std::string cs, os;
            for(auto& x : s)
            {
                cs += cs.empty() ? "" : ",";
                if(!x.v) { cs += "{\"a\":0,\"own\":0,\"t\":[]}"; continue; }
                auto t = x.moved ? std::vector<long long>() : look(*x.v); // what was moved from may refer to anything
                cs += "{\"a\":1,\"own\":" + std::to_string(x.v->has_ownership()) + ",\"t\":" + list(t) + "}";
            }
            for(auto& x : b) os += (os.empty() ? "" : ",") + list(symbols<C>(x));
            out += std::string(n ? "," : "") + "{\"x\":" + (legal ? "0" : "1") + ",\"e\":" + list(e) + ",\"c\":[" + cs + "],\"b\":[" + os + "]}";
        }
        return out + ",{\"end\":0}]";
    }

    // does another container refer to the text of this one?
    bool viewed(const slot& x)
    {
        for(auto& y : s)
            if(&y != &x && y.v && x.v && !y.moved && !y.v->has_ownership() && y.v->size() && y.v->data() >= x.v->data() && y.v->data() < x.v->data() + x.v->size() && x.v->has_ownership()) return true;
        return false;
    }
    bool possible(const J& op)
    {
        const std::string& o = op[0].s;
        if(o == "ext") return true;
        auto is = [&](std::initializer_list<const char*> l) { for(auto* p : l) if(o == p) return true; return false; };
        slot& x = s[static_cast<std::size_t>(op[1].n - 1)];
        auto second = [&]() -> slot& { return s[static_cast<std::size_t>(op[2].n - 1)]; };
        auto good = [](slot& y) { return y.v && !y.moved; };
        auto len = [&](slot& y) { return static_cast<long long>(symbols<C>(std::as_const(*y.v).to_string_view()).size()); };
        if(is({"vw", "ind", "av", "ai"}) && !(op[3].n <= op[4].n && op[4].n <= static_cast<long long>(bs[static_cast<std::size_t>(op[2].n - 1)].size()))) return false;
        if(is({"new", "vw", "ind", "str", "rep", "repc", "it", "cpy", "icpy", "mv", "sub"}))
        {
            if(x.v) return false;
            if(is({"cpy", "icpy", "mv", "sub"}) && (op[2].n == op[1].n || !good(second()))) return false;
            if(o == "sub" && op[3].n > len(second())) return false;
            return o != "mv" || !viewed(second());
        }
        if(is({"av", "ai", "as", "ar", "arc", "agr", "ca", "ma"}))
        {
            if(!x.v || viewed(x)) return false;
            if(o == "ca" && !good(second())) return false;
            return o != "ma" || (op[1].n != op[2].n && good(second()) && !viewed(second()));
        }
        if(o == "del") return x.v && !viewed(x);
        if(is({"own", "cs", "st"})) return good(x);
        if(o == "cmp") return good(x) && good(second());
        if(o == "sw") return good(x) && good(second()) && !viewed(x) && !viewed(second());
        if(!good(x) || viewed(x)) return false;
        if(is({"rp", "rpr", "rpi", "rpx"}) && op[2].n >= len(x)) return false;
        if(o == "rpx" && op[3].n >= len(x)) return false;
        return o != "ais" || (op[2].n <= op[3].n && op[3].n <= len(x));
    }

    std::vector<long long> apply(const J& op, std::size_t h)
    {
        if(op[0].s != "ext")
        {
            slot& y = s[static_cast<std::size_t>(op[1].n - 1)];
            const std::string& o = op[0].s;
            bool m = o == "mstr";
            if(o == "mv" || o == "ma") s[static_cast<std::size_t>(op[2].n - 1)].moved = true;
            y.moved = m;
        }

        const std::string& o = op[0].s;
        if(o == "ext")
        {
            auto i = static_cast<std::size_t>(op[1].n - 1);
            for(int& x : bs[i]) x ^= 1;
            str t = txt<C>(bs[i]);
            std::copy(t.begin(), t.end(), b[i].begin()); // in place
            return {};
        }
        auto& x = s[static_cast<std::size_t>(op[1].n - 1)].v;
        auto other = [&]() -> S& { return *s[static_cast<std::size_t>(op[2].n - 1)].v; };
        auto cp = [&](int i) { return utf::codepoint(table[op[i].i()]); };
        auto ch = [&](int i) { return static_cast<C>(table[op[i].i()]); };
        auto num = [&](int i) { return static_cast<std::size_t>(op[i].n); };
        auto text = [&] { return txt<C>(ints(op[2])); };
        if(o == "new") x.emplace();
        else if(o == "vw" || o == "av")
        {
            std::size_t i = num(2) - 1;
            V v = part(i, op[3].i(), op[4].i());
            bool whole = v.size() == b[i].size(), tail = v.data() + v.size() == b[i].data() + b[i].size();
            R r(v);
            if(o == "vw")
                switch(h % 5)
                {
                case 0: x.emplace(v); break;
                case 1: x.emplace(v.data(), v.size()); break;
                case 2: x.emplace(r.begin(), r.end()); break;
                case 3: if(whole) x.emplace(std::as_const(b[i])); else x.emplace(v); break;
                default: if(tail) x.emplace(v.data()); else x.emplace(v.data(), v.size()); break;
                }
            else
                switch(h % 7)
                {
                case 0: x->assign(v); break;
                case 1: x->assign(v.data(), v.size()); break;
                case 2: x->assign(r.begin(), r.end()); break;
                case 3: if(whole) x->assign(std::as_const(b[i])); else x->assign(v); break;
                case 4: if(tail) x->assign(v.data()); else x->assign(v); break;
                case 5: *x = v; break;
                default: *x = S(v); break; // by moving a container that refers to it
                }
        }
        else if(o == "ind" || o == "ai")
        {
            std::size_t i = num(2) - 1;
            V v = part(i, op[3].i(), op[4].i());
            bool whole = v.size() == b[i].size(), tail = v.data() + v.size() == b[i].data() + b[i].size();
            if(o == "ind")
                switch(h % 4)
                {
                case 0: x.emplace(papilio::independent, v.data(), v.size()); break;
                case 1: x.emplace(papilio::independent, S(v)); break;
                case 2: if(tail) x.emplace(papilio::independent, v.data()); else x.emplace(papilio::independent, S(v)); break;
                default: if(whole) x.emplace(papilio::independent, std::as_const(b[i])); else x.emplace(papilio::independent, S(v)); break;
                }
            else
                switch(h % 3)
                {
                case 0: x->assign(papilio::independent, v); break;
                case 1: if(whole) x->assign(papilio::independent, std::as_const(b[i])); else x->assign(papilio::independent, v); break;
                default: if(h % 2) *x = papilio::independent(v); else *x = papilio::independent(std::as_const(v)); break;
                }
        }
        else if(o == "str") { if(h % 2) x.emplace(text()); else { str t = text(); x.emplace(std::move(t)); } }
        else if(o == "it")
        {
            str t = text();
            std::list<C> l(t.begin(), t.end());
            if(h % 2) x.emplace(l.begin(), l.end());
            else { std::vector<C> w(t.begin(), t.end()); x.emplace(w.begin(), w.end()); }
        }
        else if(o == "rep") x.emplace(num(2), cp(3));
        else if(o == "repc") x.emplace(num(2), ch(3));
        else if(o == "ar") x->assign(num(2), cp(3));
        else if(o == "arc") x->assign(num(2), ch(3));
        else if(o == "as") x->assign(text());
        else if(o == "agr")
        {
            std::vector<utf::codepoint> cps;
            std::u32string u;
            for(int k : ints(op[2])) { cps.emplace_back(table[k]); u.push_back(table[k]); }
            str t = text();
            std::list<C> l(t.begin(), t.end());
            switch(h % 4)
            {
            case 0: x->assign_range(cps); break;
            case 1: x->assign_range(u); break;
            case 2: x->assign_range(t); break;
            default: x->assign_range(l); break;
            }
        }
        else if(o == "cpy") x.emplace(std::as_const(other()));
        else if(o == "icpy") x.emplace(papilio::independent, std::as_const(other()));
        else if(o == "mv") x.emplace(std::move(other()));
        else if(o == "sub")
        {
            const S& k = other();
            if(h % 2) x.emplace(k.substr(num(3), num(4)));
            else x.emplace(k.substr_extended(num(3), num(4)).first);
        }
        else if(o == "ca") *x = std::as_const(other());
        else if(o == "ma") *x = std::move(other());
        else if(o == "sw") { if(h % 2) x->swap(other()); else other().swap(*x); }
        else if(o == "del") x.reset();
        else if(o == "own") x->obtain_ownership();
        else if(o == "cs")
        {
            const C* p = std::as_const(*x).c_str();
            if(V(p) != x->to_string_view()) return {-98};
        }
        else if(o == "st")
        {
            const str& t = std::as_const(*x).str();
            if(V(t) != x->to_string_view() || t.data() != x->data()) return {-98};
        }
        else if(o == "mstr") { str t = std::move(*x).str(); return symbols<C>(t); }
        else if(o == "cmp")
        {
            const S &l = *x, &r = other();
            int c = l.compare(r);
            c = c < 0 ? -1 : c > 0 ? 1 : 0;
            str rs(r.to_string_view());
            auto w = R(r).template to_string<char16_t>();
            auto sign = [](auto q) { return q < 0 ? -1 : q > 0 ? 1 : 0; };
            bool ok = (l == r) == (c == 0) && (l != r) == (c != 0) && sign(l <=> r) == c && sign(l <=> V(rs)) == c && sign(l <=> rs) == c && sign(l <=> rs.c_str()) == c && sign(V(rs) <=> l) == -c && sign(rs.c_str() <=> l) == -c
                      && (l == R(r)) == (c == 0) && (R(r) == l) == (c == 0) && (l == V(rs)) == (c == 0) && (V(rs) == l) == (c == 0) && (l == rs) == (c == 0) && (rs == l) == (c == 0) && (l == rs.c_str()) == (c == 0) && (rs.c_str() == l) == (c == 0)
                      && sign(l.compare(w)) == c && (l == w) == (c == 0) && (l == utf::u16string_container(papilio::independent, w)) == (c == 0);
            return {ok ? c : -97};
        }
        else if(o == "pb") x->push_back(cp(2));
        else if(o == "pbc") x->push_back(ch(2));
        else if(o == "clr") x->clear();
        else if(o == "rp") { if(h % 2) (*x)[num(2)] = cp(3); else x->index(num(2)) = cp(3); }
        else if(o == "rpr")
        {
#ifdef PAPILIO_HAS_MULTIDIMENSIONAL_SUBSCRIPT
            if(h % 2) (*x)[papilio::reverse_index, num(2)] = cp(3);
            else
#endif
            x->index(papilio::reverse_index, num(2)) = cp(3);
        }
        else if(o == "rpi")
        {
            if(h % 2) { auto it = x->begin(); for(std::size_t i = 0; i < num(2); ++i) it++; *it = cp(3); }
            else { auto it = x->end(); for(std::size_t i = x->length(); i > num(2); --i) it--; *it = cp(3); }
        }
        else if(o == "rpx") (*x)[num(2)] = (*x)[num(3)];
        else if(o == "ro")
        {
            str t = text();
            x->resize_and_overwrite(t.size() + h % 3, [&](C* p, std::size_t) { std::copy(t.begin(), t.end(), p); return t.size(); });
        }
        else if(o == "rd")
        {
            if constexpr(std::is_same_v<C, char> || std::is_same_v<C, wchar_t>)
            {
                std::basic_stringstream<C> is;
                is << str(h % 2, static_cast<C>(' ')) << text();
                is >> *x;
            }
            else // no streams for these
            {
                x->clear();
                if(!text().empty()) x->assign(text());
            }
        }
        else if(o == "ais")
        {
            V all = x->to_string_view();
            auto sub = std::as_const(*x).substr(num(2), num(3) - num(2));
            if(h % 2) x->assign(papilio::independent, sub.to_string_view());
            else *x = papilio::independent(sub.to_string_view());
            (void)all;
        }
        else { std::fprintf(stderr, "unknown op %s\n", o.c_str()); std::exit(3); }
        return {};
    }
};
int main(int argc, char** argv)
{
    return mini::run_cases(argc, argv, [](const J& j) {
        switch(j["ek"].n)
        {
        case 0: return world<char>().run(j);
        case 1: return world<char16_t>().run(j);
        case 2: return world<char32_t>().run(j);
        case 3: return world<wchar_t>().run(j);
        default: return world<char8_t>().run(j);
        }
    });
}
