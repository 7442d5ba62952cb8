// Shared by the harnesses that run histories of operations.
#pragma once
#include "mini.hpp"
#include <list>
#include <optional>

namespace hist
{
using mini::J;

struct fuse_blown {};

// Counts and limits: live elements, live heap blocks, and after how many
// constructions of an element one of them fails (0: none does).
struct ledger
{
    long live = 0, blocks = 0, fuse = 0;
};
inline ledger& led()
{
    static ledger l;
    return l;
}
inline void burn()
{
    if(led().fuse > 0 && --led().fuse == 0)
        throw fuse_blown();
}

// An element that owns memory, so that a wrong number of destructions shows.
template <bool NothrowMove>
class elem
{
    int* p;

public:
    elem() : elem(0) {}
    elem(int v) { burn(); p = new int(v); ++led().live; }
    elem(const elem& o) { burn(); p = o.p ? new int(*o.p) : nullptr; ++led().live; }
    elem(elem&& o) noexcept(NothrowMove) : p(nullptr)
    {
        if constexpr(!NothrowMove) burn();
        std::swap(p, o.p);
        ++led().live;
    }
    elem& operator=(const elem& o) { if(this != &o) { burn(); elem t(o.raw()); std::swap(p, t.p); } return *this; }
    elem& operator=(elem&& o) noexcept(NothrowMove) { if constexpr(!NothrowMove) burn(); if(this != &o) { delete p; p = nullptr; std::swap(p, o.p); } return *this; }
    ~elem() { --led().live; delete p; }
    int raw() const { return p ? *p : -1; }
    friend bool operator==(const elem& a, const elem& b) { return a.raw() == b.raw(); }
    friend bool operator<(const elem& a, const elem& b) { return a.raw() < b.raw(); }
};
template <bool B>
int num(const elem<B>& e) { return e.raw(); }
inline int num(int v) { return v; }
inline int num(const std::string& s) { return s.empty() ? 0 : std::atoi(s.c_str() + s.size() - 1); }

template <typename T>
T mk(long long v)
{
    if constexpr(std::is_same_v<T, std::string>) return v == 0 ? std::string() : std::string(static_cast<std::size_t>(v) * 20, '.') + std::to_string(v);
    else return T(static_cast<int>(v));
}

// an allocator that counts
template <typename T>
struct alloc
{
    using value_type = T;
    alloc() = default;
    template <typename U>
    alloc(const alloc<U>&) noexcept {}
    T* allocate(std::size_t n) { ++led().blocks; return std::allocator<T>().allocate(n); }
    void deallocate(T* p, std::size_t n) { --led().blocks; std::allocator<T>().deallocate(p, n); }
    friend bool operator==(const alloc&, const alloc&) { return true; }
};

inline std::string list(const std::vector<long long>& v)
{
    std::string r = "[";
    for(std::size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + std::to_string(v[i]);
    return r + "]";
}
inline std::string q(const std::string& s) { return "\"" + s + "\""; }
} // namespace hist
