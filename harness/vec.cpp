#include "hist.hpp"
using namespace hist;

template <typename T, std::size_t C>
std::string run(const J& j)
{
    using V = papilio::small_vector<T, C, alloc<T>>;
    led() = {};
    std::string out = "[";
    {
        std::optional<V> s[3];
        const void* first[3] = {};
        auto see = [&](int i, std::string& r, bool& moved) {
            if(!s[i]) { first[i] = nullptr; r += "{\"a\":0,\"v\":[],\"c\":0,\"d\":0}"; return; }
            V& v = *s[i];
            const V& cv = v;
            std::vector<long long> x;
            bool ok = true;
            for(std::size_t k = 0; k < v.size(); ++k)
            {
                x.push_back(num(cv.data()[k]));
                ok = ok && &cv.at(k) == cv.data() + k && &v.at(k) == v.data() + k && &v[k] == v.data() + k && &cv[k] == v.data() + k;
            }
            ok = ok && v.empty() == (v.size() == 0) && std::size_t(v.end() - v.begin()) == v.size() && v.begin() == v.data() && cv.begin() == v.data() && cv.cend() == v.end()
                && std::size_t(v.rend() - v.rbegin()) == v.size() && std::size_t(cv.crend() - cv.crbegin()) == v.size() && v.static_capacity() == C;
            if(!v.empty()) ok = ok && &v.front() == v.data() && &v.back() == v.data() + v.size() - 1 && &*v.rbegin() == &v.back() && &cv.front() == v.data() && &cv.back() == &v.back();
            auto* base = reinterpret_cast<const char*>(&v);
            auto* p = reinterpret_cast<const char*>(v.data());
            bool in = p >= base && p < base + sizeof(V);
            ok = ok && in == !v.dynamic_allocated();
            if(!ok) x = {-99};
            moved = first[i] != p;
            first[i] = p;
            r += "{\"a\":1,\"v\":" + list(x) + ",\"c\":" + std::to_string(v.capacity()) + ",\"d\":" + (v.dynamic_allocated() ? "1" : "0") + "}";
        };
        auto& ops = j["ops"].a;
        for(std::size_t n = 0; n < ops.size(); ++n)
        {
            const J& op = ops[n];
            const std::string& o = op[0].s;
            const int a = op[1].i() - 1;
            auto num2 = [&](int k) { return op[k].n; };
            std::string err;
            long long x = 0;
            // what the call is given exists before anything is counted or fails
            std::vector<T> vals;
            if(op.size() > 2 && op[2].k == J::arr)
                for(auto& e : op[2].a) vals.push_back(mk<T>(e.n));
            std::list<T> lst(vals.begin(), vals.end());
            T one = mk<T>(o == "push" || o == "emb" ? num2(2) : o == "ins" || o == "emp" || o == "rsv" ? num2(3) : 0);
            const long given = static_cast<long>(std::is_same_v<T, elem<true>> || std::is_same_v<T, elem<false>> ? vals.size() + lst.size() + 1 : 0);
            // a failed call may have made a later one impossible
            auto legal = [&] {
                const bool al = s[a].has_value();
                const long long sz = al ? static_cast<long long>(s[a]->size()) : 0;
                auto alive = [&] { return s[num2(2) - 1].has_value(); };
                if(o == "new" || o == "newv" || o == "newl") return !al;
                if(o == "copy" || o == "move") return !al && num2(2) - 1 != a && alive();
                if(!al) return false;
                if(o == "cas" || o == "swap") return alive();
                if(o == "asgo" || o == "mas") return alive() && num2(2) - 1 != a;
                if(o == "pop") return sz > 0;
                if(o == "pushs" || o == "embs") return num2(2) < sz;
                if(o == "ins" || o == "emp") return num2(2) <= sz;
                if(o == "inss") return num2(2) <= sz && num2(3) < sz;
                if(o == "rss") return num2(3) < sz;
                return true;
            };
            led().fuse = j["f"].size() ? j["f"][n].n : 0;
            try
            {
                if(!legal()) err = "skip";
                else if(o == "new") s[a].emplace();
                else if(o == "newv") s[a].emplace(vals.begin(), vals.end());
                else if(o == "newl") s[a].emplace(lst.begin(), lst.end());
                else if(o == "copy") s[a].emplace(std::as_const(*s[num2(2) - 1]));
                else if(o == "move") s[a].emplace(std::move(*s[num2(2) - 1]));
                else if(o == "del") s[a].reset();
                else if(o == "cas") *s[a] = std::as_const(*s[num2(2) - 1]);
                else if(o == "mas") *s[a] = std::move(*s[num2(2) - 1]);
                else if(o == "swap") { if(n % 2) s[a]->swap(*s[num2(2) - 1]); else swap(*s[a], *s[num2(2) - 1]); }
                else if(o == "asgo") s[a]->assign(s[num2(2) - 1]->begin(), s[num2(2) - 1]->end());
                else if(o == "asgv") { if(n % 2) s[a]->assign(vals.begin(), vals.end()); else s[a]->assign_range(vals); }
                else if(o == "asgl") s[a]->assign_range(lst);
                else if(o == "app") s[a]->append_range(vals);
                else if(o == "appl") s[a]->append_range(lst);
                else if(o == "push") { if(n % 2) s[a]->push_back(one); else s[a]->push_back(std::move(one)); x = num(s[a]->back()); }
                else if(o == "emb") x = num(s[a]->emplace_back(one));
                else if(o == "pushs") { s[a]->push_back(std::as_const((*s[a])[num2(2)])); x = num(s[a]->back()); }
                else if(o == "embs") x = num(s[a]->emplace_back(std::as_const((*s[a])[num2(2)])));
                else if(o == "ins") { if(n % 2) x = s[a]->insert(s[a]->cbegin() + num2(2), one) - s[a]->begin(); else x = s[a]->insert(s[a]->cbegin() + num2(2), std::move(one)) - s[a]->begin(); }
                else if(o == "emp") { auto it = s[a]->emplace(s[a]->cbegin() + num2(2), one); x = it - s[a]->begin(); }
                else if(o == "inss") { auto it = s[a]->insert(s[a]->cbegin() + num2(2), std::as_const((*s[a])[num2(3)])); x = it - s[a]->begin(); }
                else if(o == "pop") s[a]->pop_back();
                else if(o == "clear") s[a]->clear();
                else if(o == "rs") { if constexpr(!std::is_same_v<T, std::string>) s[a]->resize(num2(2)); else s[a]->resize(num2(2)); }
                else if(o == "rsv") s[a]->resize(num2(2), one);
                else if(o == "rss") s[a]->resize(num2(2), (*s[a])[num2(3)]);
                else if(o == "res") s[a]->reserve(num2(2));
                else if(o == "fit") s[a]->shrink_to_fit();
                else if(o == "at") { if(n % 2) x = num(s[a]->at(num2(2))); else x = num(std::as_const(*s[a]).at(num2(2))); }
                else { std::fprintf(stderr, "unknown op %s\n", o.c_str()); std::exit(3); }
            }
            catch(const fuse_blown&) { err = "thrown"; x = 0; }
            catch(...) { err = mini::error_name(); x = 0; }
            led().fuse = 0;
            std::string p;
            std::string m;
            for(int i = 0; i < 3; ++i)
            {
                bool mv = false;
                if(i) { p += ","; m += ","; }
                see(i, p, mv);
                m += mv ? "1" : "0";
            }
            long live = led().live - given;
            if constexpr(!std::is_same_v<T, elem<true>> && !std::is_same_v<T, elem<false>>)
            {
                live = 0;
                for(auto& v : s) if(v) live += static_cast<long>(v->size());
            }
            out += (n ? ",{\"e\":" : "{\"e\":") + q(err) + ",\"x\":" + std::to_string(x) + ",\"p\":[" + p + "],\"n\":" + std::to_string(live) + ",\"b\":" + std::to_string(led().blocks) + ",\"m\":[" + m + "]}";
        }
    }
    // everything is gone at the end
    out += ",{\"end\":[" + std::to_string(led().live) + "," + std::to_string(led().blocks) + "]}";
    return out + "]";
}

template <typename T>
std::string byC(const J& j)
{
    switch(j["C"].n)
    {
    case 1: return run<T, 1>(j);
    case 2: return run<T, 2>(j);
    default: return run<T, 4>(j);
    }
}
int main(int argc, char** argv)
{
    return mini::run_cases(argc, argv, [](const J& j) {
        switch(j["ek"].n)
        {
        case 0: return byC<elem<true>>(j);
        case 1: return byC<elem<false>>(j);
        case 2: return byC<int>(j);
        default: return byC<std::string>(j);
        }
    });
}
