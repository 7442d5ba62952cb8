#include "hist.hpp"
using namespace hist;

static std::vector<std::pair<int, int>> freed; // object, deleter
static std::vector<int> live;

struct obj
{
    int id = 0;
    obj() = default;
    obj(int i) : id(i) { live.at(i) = 1; }
    ~obj()
    {
        if(id) live.at(id) = 0;
        id = -1;
    }
};
static int deleting = -1; // deleter that is at work
struct stateful
{
    int d = 0;
    void operator()(obj* p) const { freed.push_back({p->id, d}); delete p; }
};
struct stateful_arr
{
    int d = 0;
    void operator()(obj* p) const { freed.push_back({p->id, d}); delete[] p; }
};
struct plain : std::default_delete<obj>
{
    void operator()(obj* p) const { freed.push_back({p->id, 0}); std::default_delete<obj>::operator()(p); }
};
struct plain_arr
{
    void operator()(obj* p) const { freed.push_back({p->id, 0}); delete[] p; }
};
// a pointer type of the deleter's own
struct handle
{
    obj* p = nullptr;
    handle() = default;
    handle(std::nullptr_t) {}
    explicit handle(obj* o) : p(o) {}
    explicit operator bool() const { return p; }
    obj& operator*() const { return *p; }
    obj* operator->() const { return p; }
    friend bool operator==(const handle& a, const handle& b) { return a.p == b.p; }
};
struct with_handle
{
    using pointer = handle;
    int d = 0;
    void operator()(handle h) const { freed.push_back({h.p->id, d}); delete h.p; }
};
inline obj* raw(obj* p) { return p; }
inline obj* raw(handle h) { return h.p; }

template <typename T, typename D>
std::string run(const J& j)
{
    constexpr bool arr = std::is_array_v<T>;
    constexpr bool st = requires(D d) { d.d; };
    using P = papilio::optional_unique_ptr<T, D>;
    using U = std::unique_ptr<T, D>;
    using ptr = typename P::pointer;
    const int M = j["M"].i(), NS = j["NS"].i();
    freed.clear();
    live.assign(static_cast<std::size_t>(M) + 1, 0);
    std::vector<obj*> at(static_cast<std::size_t>(M) + 1, nullptr);
    std::string out = "[";
    {
        std::vector<std::optional<P>> s(static_cast<std::size_t>(NS));
        auto destroy = [&](obj* p) { if constexpr(arr) delete[] p; else delete p; };
        auto mkdel = [](long long d) { D x{}; if constexpr(st) x.d = static_cast<int>(d); (void)d; return x; };
        // who is outside: objects that are there and that no slot owns
        auto owned = [&](int i) {
            for(auto& p : s) if(p && p->has_ownership() && raw(p->get()) == at[i]) return true;
            return false;
        };
        auto gc = [&] { for(int i = 1; i <= M; ++i) if(live[i] && !owned(i)) destroy(at[i]); };
        auto id_of = [&](obj* p) -> int {
            if(!p) return 0;
            for(int i = 1; i <= M; ++i) if(at[i] == p) return i;
            return -7;
        };
        auto fresh_id = [&]() -> int {
            for(int i = 1; i <= M; ++i)
            {
                if(live[i]) continue;
                bool used = false;
                for(auto& p : s) used = used || (p && at[i] && raw(p->get()) == at[i]);
                if(!used) return i;
            }
            return 0;
        };
        auto make = [&]() -> obj* {
            int i = fresh_id();
            obj* p;
            if constexpr(arr) { p = new obj[2]; p->id = i; live[i] = 1; }
            else p = new obj(i);
            at[i] = p;
            return p;
        };
        auto& ops = j["ops"].a;
        for(std::size_t n = 0; n < ops.size(); ++n)
        {
            const J& op = ops[n];
            const std::string& o = op[0].s;
            auto& x = s[static_cast<std::size_t>(op[1].n - 1)];
            auto arg = [&]() -> auto& { return s[static_cast<std::size_t>(op[2].n - 1)]; };
            const bool fresh = o == "own" || o == "ind" || o == "view" || o == "up" || o == "ro" || o == "rv" || o == "ri" || o == "rup";
            const bool makes = o == "new" || o == "null" || o == "own" || o == "ind" || o == "view" || o == "up" || o == "upn" || o == "copy" || o == "move";
            bool legal = o == "gc" || ((makes ? !x : x.has_value()) && (!fresh || fresh_id()));
            if(o == "copy" || o == "move") legal = legal && op[2].n != op[1].n && arg();
            if(o == "cas" || o == "mas" || o == "swap") legal = legal && arg();
            freed.clear();
            if(!legal) {}
            else if(o == "gc") gc();
            else if(o == "new") x.emplace();
            else if(o == "null") x.emplace(nullptr);
            else if(o == "own") x.emplace(ptr(make()), true);
            else if(o == "ind") { if constexpr(arr) x.emplace(ptr(make()), true); else x.emplace(papilio::independent, ptr(make())); }
            else if(o == "view") x.emplace(ptr(make()), false);
            else if(o == "up") x.emplace(U(ptr(make()), mkdel(op[2].n)));
            else if(o == "upn") x.emplace(U(nullptr, mkdel(op[2].n)));
            else if(o == "copy") x.emplace(std::as_const(*arg()));
            else if(o == "move") x.emplace(std::move(*arg()));
            else if(o == "del") x.reset();
            else if(o == "cas") *x = std::as_const(*arg());
            else if(o == "mas") *x = std::move(*arg());
            else if(o == "swap") x->swap(*arg());
            else if(o == "r") x->reset();
            else if(o == "rn") x->reset(nullptr);
            else if(o == "rno") x->reset(ptr(), true);
            else if(o == "rupn") x->reset(U());
            else if(o == "ro") x->reset(ptr(make()), true);
            else if(o == "ri") { if constexpr(arr) x->reset(ptr(make()), true); else x->reset(papilio::independent, ptr(make())); }
            else if(o == "rv") x->reset(ptr(make()), false);
            else if(o == "rup") x->reset(U(ptr(make()), mkdel(op[2].n)));
            else if(o == "rel") (void)x->release();
            else if(o == "sd") x->get_deleter() = mkdel(op[2].n);
            else { std::fprintf(stderr, "unknown op %s\n", o.c_str()); std::exit(3); }
            std::string sl, f, l;
            for(auto& p : s)
            {
                sl += sl.empty() ? "" : ",";
                if(!p) { sl += "{\"a\":0,\"p\":0,\"own\":0,\"d\":0}"; continue; }
                const P& cp = *p;
                int id = id_of(raw(cp.get()));
                // the other ways to look at it agree
                bool ok = static_cast<bool>(cp) == (cp.get() != ptr()) && (cp == nullptr) == !cp && (nullptr == cp) == !cp;
                for(auto& q : s) if(q) ok = ok && (cp == *q) == (raw(cp.get()) == raw(q->get()));
                if(id > 0 && live[id])
                {
                    if constexpr(arr) ok = ok && &cp[0] == raw(cp.get()) && &cp[1] == raw(cp.get()) + 1;
                    else ok = ok && &*cp == raw(cp.get()) && cp->id == id;
                }
                if(!ok) id = -99;
                int d = 0;
                if constexpr(st) d = cp.get_deleter().d;
                sl += "{\"a\":1,\"p\":" + std::to_string(id) + ",\"own\":" + (cp.has_ownership() ? "1" : "0") + ",\"d\":" + std::to_string(d) + "}";
            }
            for(auto& [a, b] : freed) f += (f.empty() ? "[" : ",[") + std::to_string(a) + "," + std::to_string(b) + "]";
            for(int i = 1; i <= M; ++i) if(live[i]) l += (l.empty() ? "" : ",") + std::to_string(i);
            out += std::string(n ? "," : "") + "{\"x\":" + (legal ? "0" : "1") + ",\"s\":[" + sl + "],\"f\":[" + f + "],\"l\":[" + l + "]}";
        }
        gc();
        freed.clear();
    }
    int left = 0;
    for(int x : live) left += x;
    return out + ",{\"end\":" + std::to_string(left) + "}]";
}
int main(int argc, char** argv)
{
    return mini::run_cases(argc, argv, [](const J& j) {
        switch(j["ek"].n)
        {
        case 0: return run<obj, stateful>(j);
        case 1: return run<obj[], stateful_arr>(j);
        case 2: return run<obj, with_handle>(j);
        case 3: return run<obj, plain>(j);
        default: return run<obj[], plain_arr>(j);
        }
    });
}
