#include "hist.hpp"
#include <string_view>
using namespace hist;

template <typename T> constexpr bool tracked = std::is_same_v<T, elem<true>> || std::is_same_v<T, elem<false>>;

// transparent lookup is given another type than the key
template <typename T, typename F>
auto probe(long long v, F f)
{
    if constexpr(std::is_same_v<T, std::string>)
    {
        std::string s = mk<T>(v);
        return f(std::string_view(s));
    }
    else { T t = mk<T>(v); return f(t); }
}
// keys are ordered by their number
template <bool Greater, bool Transparent>
struct cmp
{
    template <typename A, typename B>
    bool operator()(const A& a, const B& b) const { return Greater ? key(b) < key(a) : key(a) < key(b); }
    static int key(const elem<true>& e) { return e.raw(); }
    static int key(const elem<false>& e) { return e.raw(); }
    static int key(int e) { return e; }
    static int key(std::string_view s) { return s.empty() ? 0 : s.back() - '0'; }
};
template <bool G>
struct tcmp : cmp<G, true> { using is_transparent = void; };

template <typename T, std::size_t K, bool G, bool Tr>
std::string run(const J& j)
{
    using V = papilio::fixed_vector<T, K>;
    using M = papilio::fixed_flat_map<T, T, K, std::conditional_t<Tr, tcmp<G>, cmp<G, false>>>;
    led() = {};
    std::string out = "[";
    {
        std::optional<V> s[2];
        std::optional<M> t[2];
        auto see = [&](int i) -> std::string {
            if(!s[i]) return "{\"a\":0,\"v\":[]}";
            V& v = *s[i];
            const V& cv = v;
            std::vector<long long> x;
            bool ok = v.capacity() == K && V::max_size() == K && v.empty() == (v.size() == 0) && std::size_t(v.end() - v.begin()) == v.size() && std::size_t(cv.cend() - cv.cbegin()) == v.size();
            for(std::size_t k = 0; k < v.size(); ++k)
            {
                x.push_back(num(cv.data()[k]));
                ok = ok && &cv.at(k) == cv.data() + k && &v.at(k) == v.data() + k && &v[k] == v.data() + k && &cv[k] == v.data() + k && &*(v.begin() + k) == v.data() + k;
            }
            if(!v.empty()) ok = ok && &v.front() == v.data() && &v.back() == v.data() + v.size() - 1 && &cv.front() == v.data() && &cv.back() == &v.back();
            if(!ok) x = {-99};
            return "{\"a\":1,\"v\":" + list(x) + "}";
        };
        auto seem = [&](int i) -> std::string {
            if(!t[i]) return "{\"a\":0,\"v\":[]}";
            M& m = *t[i];
            const M& cm = m;
            bool ok = m.empty() == (m.size() == 0) && std::size_t(m.end() - m.begin()) == m.size() && std::size_t(cm.end() - cm.begin()) == m.size() && M::max_size() == K;
            std::string r;
            for(auto& [a, b] : m) r += (r.empty() ? "[" : ",[") + std::to_string(num(a)) + "," + std::to_string(num(b)) + "]";
            return ok ? "{\"a\":1,\"v\":[" + r + "]}" : "{\"a\":1,\"v\":[-99]}";
        };
        auto& ops = j["ops"].a;
        for(std::size_t n = 0; n < ops.size(); ++n)
        {
            const J& op = ops[n];
            const std::string& o = op[0].s;
            const int a = op[1].i() - 1;
            auto at = [&](int k) { return op[k].n; };
            std::string err, x = "0";
            T one = mk<T>(o == "push" || o == "emb" ? at(2) : op.size() > 3 ? at(3) : 0);
            T key = mk<T>(op.size() > 2 ? at(2) : 0);
            const long given = tracked<T> ? 2 : 0;
            const bool mp = (o[0] == 'm' && o != "move") || o == "ioa" || o == "te" || o == "find" || o == "has" || o == "lb";
            auto legal = [&] {
                if(mp)
                {
                    if(o == "mnew") return !t[a];
                    if(o == "mcopy" || o == "mmove") return !t[a] && at(2) - 1 != a && t[at(2) - 1].has_value();
                    return t[a].has_value();
                }
                const bool al = s[a].has_value();
                const long long sz = al ? static_cast<long long>(s[a]->size()) : 0;
                if(o == "new" || o == "newn") return !al;
                if(o == "copy" || o == "move") return !al && at(2) - 1 != a && s[at(2) - 1].has_value();
                if(!al) return false;
                if(o == "pop") return sz > 0;
                if(o == "pushs") return at(2) < sz;
                if(o == "ins" || o == "emp") return at(2) <= sz;
                if(o == "inss") return at(2) <= sz && at(3) < sz;
                return true;
            };
            auto N = [](auto v) { return std::to_string(static_cast<long long>(v)); };
            led().fuse = j["f"].size() ? j["f"][n].n : 0;
            try
            {
                if(!legal()) err = "skip";
                else if(o == "new") s[a].emplace();
                else if(o == "newn") s[a].emplace(static_cast<std::size_t>(at(2)), one);
                else if(o == "copy") s[a].emplace(std::as_const(*s[at(2) - 1]));
                else if(o == "move") s[a].emplace(std::move(*s[at(2) - 1]));
                else if(o == "del") s[a].reset();
                else if(o == "push") { if(n % 2) s[a]->push_back(one); else s[a]->push_back(std::move(one)); x = N(num(s[a]->back())); }
                else if(o == "emb") x = N(num(s[a]->emplace_back(one)));
                else if(o == "pushs") { s[a]->push_back(std::as_const((*s[a])[at(2)])); x = N(num(s[a]->back())); }
                else if(o == "ins") { auto it = n % 2 ? s[a]->insert(s[a]->cbegin() + at(2), one) : s[a]->insert(s[a]->cbegin() + at(2), std::move(one)); x = N(it - s[a]->begin()); }
                else if(o == "emp") { auto it = s[a]->emplace(s[a]->cbegin() + at(2), one); x = N(it - s[a]->begin()); }
                else if(o == "inss") { auto it = s[a]->insert(s[a]->cbegin() + at(2), std::as_const((*s[a])[at(3)])); x = N(it - s[a]->begin()); }
                else if(o == "pop") s[a]->pop_back();
                else if(o == "clear") s[a]->clear();
                else if(o == "at") { if(n % 2) x = N(num(s[a]->at(at(2)))); else x = N(num(std::as_const(*s[a]).at(at(2)))); }
                else if(o == "mnew") t[a].emplace();
                else if(o == "mcopy") t[a].emplace(std::as_const(*t[at(2) - 1]));
                else if(o == "mmove") t[a].emplace(std::move(*t[at(2) - 1]));
                else if(o == "mdel") t[a].reset();
                else if(o == "ioa" || o == "te")
                {
                    auto r = o == "ioa" ? (n % 2 ? t[a]->insert_or_assign(key, one) : t[a]->insert_or_assign(key, std::move(one))) : t[a]->try_emplace(key, one);
                    x = "[" + N(r.first - t[a]->begin()) + "," + N(r.second) + "]";
                }
                else if(o == "mat") { if(n % 2) x = N(num(t[a]->at(key))); else x = N(num(std::as_const(*t[a]).at(key))); }
                else if(o == "find")
                {
                    const M& cm = *t[a];
                    auto p = cm.find(key) - cm.begin();
                    if(t[a]->find(key) - t[a]->begin() != p) p = -99;
                    if constexpr(Tr)
                        probe<T>(at(2), [&](const auto& k) { if(cm.find(k) - cm.begin() != p || t[a]->find(k) - t[a]->begin() != p) p = -98; });
                    x = N(p);
                }
                else if(o == "has")
                {
                    bool h = t[a]->contains(key);
                    x = N(h);
                    if constexpr(Tr)
                        probe<T>(at(2), [&](const auto& k) { if(t[a]->contains(k) != h) x = "-98"; });
                }
                else if(o == "lb")
                {
                    const M& cm = *t[a];
                    auto p = cm.lower_bound(key) - cm.begin();
                    if(t[a]->lower_bound(key) - t[a]->begin() != p) p = -99;
                    if constexpr(Tr)
                        probe<T>(at(2), [&](const auto& k) { if(cm.lower_bound(k) - cm.begin() != p || t[a]->lower_bound(k) - t[a]->begin() != p) p = -98; });
                    x = N(p);
                }
                else { std::fprintf(stderr, "unknown op %s\n", o.c_str()); std::exit(3); }
            }
            catch(const fuse_blown&) { err = "thrown"; x = "0"; }
            catch(...) { err = mini::error_name(); x = "0"; }
            led().fuse = 0;
            out += (n ? ",{\"e\":" : "{\"e\":") + q(err) + ",\"x\":" + x + ",\"v\":[" + see(0) + "," + see(1) + "],\"m\":[" + seem(0) + "," + seem(1) + "],\"n\":" + std::to_string(led().live - given) + "}";
        }
    }
    return out + ",{\"end\":" + std::to_string(led().live) + "}]";
}
template <typename T>
std::string by(const J& j)
{
    const bool G = j["G"].n, Tr = j["Tr"].n;
    if(j["K"].n == 3) return G ? (Tr ? run<T, 3, true, true>(j) : run<T, 3, true, false>(j)) : (Tr ? run<T, 3, false, true>(j) : run<T, 3, false, false>(j));
    if(j["K"].n == 2) return G ? run<T, 2, true, true>(j) : run<T, 2, false, false>(j);
    if(j["K"].n == 1) return run<T, 1, false, true>(j);
    return G ? run<T, 8, true, true>(j) : run<T, 8, false, false>(j);
}
int main(int argc, char** argv)
{
    return mini::run_cases(argc, argv, [](const J& j) {
        switch(j["ek"].n)
        {
        case 0: return by<elem<true>>(j);
        case 1: return by<elem<false>>(j);
        case 2: return by<int>(j);
        default: return by<std::string>(j);
        }
    });
}
