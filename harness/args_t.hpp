// Histories of argument collections (C12), for one character type
#pragma once
#include "hist.hpp"

namespace args
{
using mini::J;

struct big { long id = 0; long pad[9] = {}; };  // does not fit into an argument
struct small { int id = 0; };
} // namespace args

template <typename C>
struct papilio::formatter<args::big, C>
{
    template <typename P, typename Ctx>
    auto format(const args::big& b, P&, Ctx& ctx) const
    {
        papilio::format_context_traits<Ctx>::append(ctx, U'B');
        papilio::format_context_traits<Ctx>::append(ctx, static_cast<char32_t>(U'0' + b.id));
        return ctx.out();
    }
};
template <typename C>
struct papilio::formatter<args::small, C>
{
    template <typename P, typename Ctx>
    auto format(const args::small& b, P&, Ctx& ctx) const
    {
        papilio::format_context_traits<Ctx>::append(ctx, U'S');
        papilio::format_context_traits<Ctx>::append(ctx, static_cast<char32_t>(U'0' + b.id));
        return ctx.out();
    }
};

namespace args
{
template <typename C>
std::basic_string<C> str(const std::string& s) { return std::basic_string<C>(s.begin(), s.end()); }

template <typename C>
struct world
{
    using S = std::basic_string<C>;
    using SV = std::basic_string_view<C>;
    using Ctx = std::conditional_t<std::is_same_v<C, char>, papilio::format_context, papilio::wformat_context>;
    using arg_t = papilio::basic_format_arg<Ctx>;
    using base = papilio::format_args_base<Ctx, C>;
    using dyn = papilio::basic_dynamic_format_args<Ctx, C>;
    using ref = papilio::basic_format_args_ref<Ctx, C>;
    using idx_t = papilio::basic_indexing_value<C>;

    static constexpr int NV = 9;
    int ints[NV + 1];
    S strs[NV + 1];
    SV svs[NV + 1];
    big bigs[NV + 1];
    small smalls[NV + 1];
    std::vector<arg_t> anys;
    std::vector<int> tm; // the kind of every argument
    std::vector<S> names{S(), str<C>("a"), str<C>("ab"), str<C>("a_name_that_is_longer_than_a_small_string"), str<C>("A")};
    S absent = str<C>("abc");
    int flavor = 0, flavor0 = 0;

    world(const J& types)
    {
        for(auto& t : types.a) tm.push_back(t.i());
        anys.resize(NV + 1);
        for(int v = 1; v <= NV; ++v)
        {
            ints[v] = 1000 + v;
            strs[v] = str<C>("string" + std::to_string(v));
            svs[v] = strs[v];
            bigs[v].id = v;
            smalls[v].id = v;
            switch(kind(v))
            {
            case 4: anys[v] = arg_t(v + 0.5); break;
            case 5: anys[v] = arg_t(papilio::independent, strs[v]); break;
            case 6: anys[v] = arg_t(smalls[v]); break;
            case 7: anys[v] = arg_t(static_cast<const void*>(&ints[v])); break;
            case 8: anys[v] = arg_t(static_cast<char32_t>(U'a' + v)); break;
            default: break;
            }
        }
    }
    int kind(int v) const { return tm.at(static_cast<std::size_t>(v - 1) % tm.size()); }

    // which argument it is
    long decode(const arg_t& a) const
    {
        for(int v = 1; v <= NV; ++v)
        {
            switch(kind(v))
            {
            case 1: if(a.template holds<int>() && get<int>(a) == ints[v]) return v; break;
            case 2:
            case 5: if(a.template holds<papilio::utf::basic_string_container<C>>() && SV(get<S>(a)) == strs[v]) return v; break;
            case 3: if(a.template holds<typename arg_t::handle>()) { auto* p = handle_cast<big>(&std::get<typename arg_t::handle>(a.to_variant())); if(p == &bigs[v]) return v; } break;
            case 4: if(a.template holds<double>() && get<double>(a) == v + 0.5) return v; break;
            case 6: if(a.template holds<typename arg_t::handle>()) { auto* p = handle_cast<small>(&std::get<typename arg_t::handle>(a.to_variant())); if(p && p->id == v) return v; } break;
            case 7: if(a.template holds<const void*>() && get<const void*>(a) == &ints[v]) return v; break;
            case 8: if(a.template holds<papilio::utf::codepoint>() && get<char32_t>(a) == static_cast<char32_t>(U'a' + v)) return v; break;
            }
        }
        return -2;
    }
    S text(long v) const
    {
        switch(kind(static_cast<int>(v)))
        {
        case 1: return str<C>(std::to_string(ints[v]));
        case 2:
        case 5: return strs[v];
        case 3: return str<C>("B" + std::to_string(v));
        case 4: return str<C>(std::to_string(v) + ".5");
        case 6: return str<C>("S" + std::to_string(v));
        case 8: return str<C>(std::string(1, static_cast<char>('a' + v)));
        default: return S();
        }
    }

    // calls f with the arguments of a list of items
    template <typename F, typename... Done>
    void spread(F& f, const std::vector<J>& items, std::size_t i, Done&&... d)
    {
        if(i == items.size()) { f(std::forward<Done>(d)...); return; }
        if constexpr(sizeof...(Done) < (sizeof(C) == 1 ? 3 : 2))
        {
            const int n = items[i][0].i(), v = items[i][1].i();
            const C* nm = names.at(static_cast<std::size_t>(n)).c_str();
            auto with = [&](auto& val) {
                if(n == 0) spread(f, items, i + 1, std::forward<Done>(d)..., val);
                else spread(f, items, i + 1, std::forward<Done>(d)..., papilio::arg(nm, val));
            };
            switch(kind(v))
            {
            case 1: with(ints[v]); break;
            case 2: with(svs[v]); break;
            case 3: with(bigs[v]); break;
            default: with(anys[v]); break;
            }
        }
        else { std::fprintf(stderr, "too many items\n"); std::exit(3); }
    }

    // the ways to hand over a single argument
    void emplace(dyn& c, int n, int v)
    {
        const SV nm = names.at(static_cast<std::size_t>(n));
        auto lval = [&](auto& val) {
            if(n == 0) { if(flavor % 2) c.emplace(val); else c.append(std::as_const(val)); return; }
            switch(flavor % 4)
            {
            case 0: { auto na = papilio::arg(nm, val); c.emplace(na); break; }
            case 1: { const auto na = papilio::arg(nm, std::as_const(val)); c.append(na); break; }
            case 2: c.emplace(papilio::arg(nm.data(), val)); break;
            default: c.append(papilio::arg(nm, val)); break;
            }
        };
        auto rval = [&](auto&& val) {
            if(n == 0) c.emplace(std::move(val));
            else c.emplace(papilio::arg(nm, std::move(val)));
        };
        ++flavor;
        const bool r = flavor % 3 == 0;
        switch(kind(v))
        {
        case 1: r ? rval(int(ints[v])) : lval(ints[v]); break;
        case 2: r ? rval(S(strs[v])) : flavor % 3 == 1 ? lval(strs[v]) : lval(svs[v]); break;
        case 3: lval(bigs[v]); break;
        case 4: r ? rval(v + 0.5) : lval(anys[v]); break;
        case 5: r ? rval(S(strs[v])) : lval(anys[v]); break;
        case 6: r ? rval(small(smalls[v])) : lval(smalls[v]); break;
        case 8: r ? rval(static_cast<C>('a' + v)) : lval(anys[v]); break;
        default: lval(anys[v]); break;
        }
    }

    struct slot
    {
        int a = 0;
        std::shared_ptr<base> p;
        std::function<std::shared_ptr<base>(base&, bool mv, int how)> make; // of a static collection
        dyn& d() { return static_cast<dyn&>(*p); }
    };
    std::vector<slot> s;

    template <typename... Xs>
    static auto make_static(Xs&&... xs) { return papilio::make_format_args<Ctx>(std::forward<Xs>(xs)...); }

    static void no(int& why, int line) { if(!why) why = line; }
    long look(const std::function<const arg_t&()>& f, int& why, const char* error = "out_of_range") const
    {
        try { return decode(f()); }
        catch(...) { if(mini::error_name() != error) no(why, __LINE__); return 0; }
    }
    long formatted(const base& b, const S& field, long v, int& why) const
    {
        try
        {
            S r = papilio::vformat(SV(str<C>("{") + field + str<C>("}")), ref(b));
            if(v == 0 || (v > 0 && kind(static_cast<int>(v)) != 7 && r != text(v))) no(why, __LINE__);
        }
        catch(const std::exception&) { if(v != 0) no(why, __LINE__); }
        return v;
    }
    // full: in every way there is, with the errors
    std::string observe(slot& x, bool full)
    {
        if(x.a == 0) return "{\"a\":0}";
        const base& b = *x.p;
        int why = 0; // the line of the first way that does not agree
        std::vector<long long> gi, gn;
        const std::size_t n = b.indexed_size();
        for(std::size_t i = 0; i < std::min<std::size_t>(n, 40) + 2; ++i)
        {
            const auto sg = static_cast<std::ptrdiff_t>(i);
            if(!full)
            {
                gi.push_back(b.contains(i) ? look([&]() -> const arg_t& { return b.get(i); }, why) : 0);
                continue;
            }
            long v = look([&]() -> const arg_t& { return b.get(i); }, why);
            if(v != look([&]() -> const arg_t& { return b.get(idx_t(sg)); }, why)) no(why, __LINE__);
            if(v != look([&]() -> const arg_t& { return b[sg]; }, why)) no(why, __LINE__);
            if(!((v != 0) == b.contains(i) && (v != 0) == b.contains(idx_t(sg)))) no(why, __LINE__);
            formatted(b, str<C>(std::to_string(i)), v, why);
            gi.push_back(v);
        }
        for(std::size_t k = 1; k <= static_cast<std::size_t>(NN) + 1; ++k)
        {
            const S& name = k <= static_cast<std::size_t>(NN) ? names[k] : absent;
            const C* cs = name.c_str();
            if(!full)
            {
                gn.push_back(b.contains(SV(name)) ? look([&]() -> const arg_t& { return b.get(SV(name)); }, why) : 0);
                continue;
            }
            long v = look([&]() -> const arg_t& { return b.get(SV(name)); }, why);
            if(v != look([&]() -> const arg_t& { return b.get(cs); }, why)) no(why, __LINE__);
            if(v != look([&]() -> const arg_t& { return b.get(name); }, why)) no(why, __LINE__);
            if(v != look([&]() -> const arg_t& { return b.get(idx_t(SV(name))); }, why)) no(why, __LINE__);
            if(v != look([&]() -> const arg_t& { return b[idx_t(SV(name))]; }, why)) no(why, __LINE__);
            if(!((v != 0) == b.contains(SV(name)) && (v != 0) == b.contains(cs) && (v != 0) == b.contains(name) && (v != 0) == b.contains(idx_t(SV(name))))) no(why, __LINE__);
            formatted(b, name, v, why);
            gn.push_back(v);
        }
        if(full)
        if(0 != look([&]() -> const arg_t& { return b.get(idx_t(-1)); }, why) || !(!b.contains(idx_t(-1)))) no(why, __LINE__);
        if(full)
        if(0 != look([&]() -> const arg_t& { return b.get(idx_t(papilio::index_range(0, 1))); }, why, "invalid_argument") || !(!b.contains(idx_t(papilio::index_range(0, 1))))) no(why, __LINE__);
        // one character less, one more: other names
        if(!(!b.contains(SV()) && !b.contains(SV(names[3]).substr(1)) && !b.contains(SV(names[3]).substr(0, names[3].size() - 1)))) no(why, __LINE__);
        if(x.a == 1)
        {
            const dyn& d = x.d();
            if(!(d.indexed().size() == n && d.named().size() == d.named_size())) no(why, __LINE__);
            for(std::size_t i = 0; i < std::min<std::size_t>(n, 40); ++i) if(!(decode(d.indexed()[i]) == gi[i])) no(why, __LINE__);
            for(auto& [name, v] : d.named()) if(decode(v) != look([&]() -> const arg_t& { return b.get(SV(name)); }, why)) no(why, __LINE__);
        }
        return "{\"a\":" + std::to_string(x.a) + ",\"sz\":" + std::to_string(n) + ",\"ns\":" + std::to_string(b.named_size()) + ",\"gi\":" + hist::list(gi) + ",\"gn\":" + hist::list(gn) + ",\"ok\":" + (why ? "0,\"why\":" + std::to_string(why) : std::string("1")) + "}";
    }
    int NN = 1;

    std::string run(const J& j)
    {
        NN = j["NN"].i();
        flavor = flavor0 = j["h"].i();
        s.resize(static_cast<std::size_t>(j["NS"].n));
        std::vector<int> to(s.size(), -1);
        std::string out = "[";
        auto referred = [&](std::size_t k) { for(std::size_t q = 0; q < s.size(); ++q) if(s[q].a == 3 && to[q] == static_cast<int>(k)) return true; return false; };
        auto distinct = [&](const std::vector<J>& items) {
            for(std::size_t a = 0; a < items.size(); ++a) for(std::size_t b = 0; b < a; ++b) if(items[a][0].n && items[a][0].n == items[b][0].n) return false;
            return true;
        };
        auto& ops = j["ops"].a;
        for(std::size_t n = 0; n < ops.size(); ++n)
        {
            const J& op = ops[n];
            const std::string& o = op[0].s;
            const auto me = static_cast<std::size_t>(op[1].n - 1);
            auto& x = s[me];
            const bool two = o == "ref" || o == "cp" || o == "dmv" || o == "smv";
            const auto other = two ? static_cast<std::size_t>(op[2].n - 1) : me;
            auto& y = s[other];
            const bool birth = two || o == "new" || o == "newv" || o == "st";
            bool legal = birth ? x.a == 0 : o == "del" ? x.a != 0 && !referred(me) : x.a == 1;
            if(two) legal = legal && other != me && (o == "ref" ? y.a != 0 : o == "dmv" ? y.a == 1 : o == "cp" ? y.a == 2 : y.a == 2 && !referred(other));
            if(o == "st") legal = legal && distinct(op[2].a);
            if(legal)
            {
                if(o == "new") { x.p = std::make_shared<dyn>(); x.a = 1; }
                else if(o == "newv")
                {
                    auto f = [&](auto&&... xs) { if constexpr(sizeof...(xs) > 0) x.p.reset(new dyn(std::forward<decltype(xs)>(xs)...)); };
                    spread(f, op[2].a, 0);
                    x.a = 1;
                }
                else if(o == "st")
                {
                    auto f = [&](auto&&... xs) {
                        using T = decltype(make_static(std::forward<decltype(xs)>(xs)...));
                        x.p.reset(new T(make_static(std::forward<decltype(xs)>(xs)...)));
                        x.make = [](base& b, bool mv, int how) -> std::shared_ptr<base> {
                            T& t = static_cast<T&>(b);
                            if(mv) return std::shared_ptr<base>(new T(std::move(t)));
                            if(how % 2) return std::shared_ptr<base>(new T(t));
                            return std::shared_ptr<base>(new T(std::as_const(t)));
                        };
                    };
                    spread(f, op[2].a, 0);
                    x.a = 2;
                }
                else if(o == "cp") { x.p = y.make(*y.p, false, flavor++); x.make = y.make; x.a = 2; }
                else if(o == "smv") { x.p = y.make(*y.p, true, 0); x.make = y.make; x.a = 2; y = slot(); }
                else if(o == "dmv") { x.p = std::make_shared<dyn>(std::move(y.d())); x.a = 1; y.d().clear(); }
                else if(o == "ref")
                {
                    to[me] = static_cast<int>(other);
                    if(op[3].n == 1) x.p = std::make_shared<ref>(static_cast<const base&>(*y.p));
                    else if(y.a == 1) x.p = std::make_shared<ref>(y.d());
                    else if(y.a == 3)
                    {
                        x.p = std::make_shared<ref>(static_cast<ref&>(*y.p)); // refers to what that refers to
                        to[me] = to[other];
                    }
                    else x.p = std::make_shared<ref>(static_cast<const base&>(*y.p));
                    if(op[3].n != 1)
                        while(s[static_cast<std::size_t>(to[me])].a == 3 && y.a != 3) to[me] = to[static_cast<std::size_t>(to[me])];
                    x.a = 3;
                }
                else if(o == "emp") emplace(x.d(), op[2][0].i(), op[2][1].i());
                else if(o == "app")
                {
                    auto f = [&](auto&&... xs) { if constexpr(sizeof...(xs) > 0) x.d().append(std::forward<decltype(xs)>(xs)...); };
                    spread(f, op[2].a, 0);
                }
                else if(o == "clr") x.d().clear();
                else if(o == "del") x = slot();
                else { std::fprintf(stderr, "unknown op %s\n", o.c_str()); std::exit(3); }
            }
            std::string sl;
            for(auto& z : s) sl += (sl.empty() ? "" : ",") + observe(z, (n + static_cast<std::size_t>(flavor0)) % 5 == 0 || n + 1 == ops.size());
            out += (n ? "," : "") + std::string("{\"x\":") + (legal ? "0" : "1") + ",\"s\":[" + sl + "]}";
        }
        // references first: they refer to the others
        for(auto& z : s) if(z.a == 3) z = slot();
        return out + "]";
    }
};

std::string run_n(const J&);
std::string run_w(const J&);
} // namespace args
