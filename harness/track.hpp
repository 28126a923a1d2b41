// track.hpp - instrumented element and allocator with failure injection
#pragma once
#include <map>
#include <set>
#include <string>
#include <stdexcept>
#include <memory>

namespace tk
{
struct Boom {}; // the injected failure

struct state_t
{
    long live = 0;                 // constructed and not destroyed elements
    std::set<const void*> addr;    // where
    long countdown = -1;           // failure after this many more points (-1: never)
    long points = 0;               // points passed since reset
    std::string bad;               // first lifetime error
    std::map<void*, std::pair<std::size_t, int>> blocks; // allocations: size, allocator id
    bool fail_moves = true;
    void error(const char* what) { if(bad.empty()) bad = what; }
    void reset() { live = 0; addr.clear(); countdown = -1; points = 0; bad.clear(); blocks.clear(); }
};
inline state_t st;

inline void point()
{
    ++st.points;
    if(st.countdown >= 0 && st.countdown-- == 0) { st.countdown = -1; throw Boom(); }
}

// MoveThrows: whether moving is a failure point
template <bool MoveThrows>
struct elem
{
    int v;
    std::unique_ptr<int> heap; // makes moved-from and double destruction visible
    void enter() { ++st.live; if(!st.addr.insert(this).second) st.error("element constructed over a live element"); }
    void leave() { --st.live; if(!st.addr.erase(this)) st.error("element destroyed that is not alive"); }
    void check() const { if(!st.addr.count(this)) st.error("use of an element that is not alive"); }
    elem() : v(0) { point(); heap = std::make_unique<int>(v); enter(); }
    elem(int x) : v(x) { point(); heap = std::make_unique<int>(v); enter(); }
    elem(const elem& o) : v(o.v) { o.check(); point(); if(o.heap) heap = std::make_unique<int>(*o.heap); enter(); }
    elem(elem&& o) noexcept(!MoveThrows) : v(o.v) { o.check(); if constexpr(MoveThrows) point(); heap = std::move(o.heap); o.v = -1; enter(); }
    elem& operator=(const elem& o)
    {
        check(); o.check(); point();
        if(this != &o) { v = o.v; heap = o.heap ? std::make_unique<int>(*o.heap) : nullptr; }
        return *this;
    }
    elem& operator=(elem&& o) noexcept(!MoveThrows)
    {
        check(); o.check();
        if constexpr(MoveThrows) point();
        if(this != &o) { v = o.v; heap = std::move(o.heap); o.v = -1; }
        return *this;
    }
    ~elem() { leave(); }
    int get() const { check(); return heap ? *heap == v ? v : -2 : -1; }
    friend bool operator==(const elem& a, const elem& b) { return a.get() == b.get(); }
    friend bool operator<(const elem& a, const elem& b) { return a.get() < b.get(); }
};

template <typename T, bool Propagate>
struct alloc
{
    using value_type = T;
    using propagate_on_container_swap = std::bool_constant<Propagate>;
    using propagate_on_container_move_assignment = std::bool_constant<Propagate>;
    using propagate_on_container_copy_assignment = std::false_type;
    using is_always_equal = std::false_type;
    template <typename U> struct rebind { using other = alloc<U, Propagate>; };
    int id = 0;
    alloc() noexcept = default;
    explicit alloc(int i) noexcept : id(i) {}
    template <typename U> alloc(const alloc<U, Propagate>& o) noexcept : id(o.id) {}
    T* allocate(std::size_t n)
    {
        point();
        T* p = static_cast<T*>(::operator new(n * sizeof(T)));
        st.blocks[p] = {n, id};
        return p;
    }
    void deallocate(T* p, std::size_t n) noexcept
    {
        auto it = st.blocks.find(p);
        if(it == st.blocks.end()) { st.error("memory returned that was not allocated"); return; }
        if(it->second.first != n) st.error("memory returned with another size");
        if(it->second.second != id) st.error("memory returned to another allocator");
        st.blocks.erase(it);
        ::operator delete(p);
    }
    friend bool operator==(const alloc& a, const alloc& b) noexcept { return a.id == b.id; }
};
} // namespace tk
