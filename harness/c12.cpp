// C12: small_vector against std::vector, all reachable states, all operations,
// a failure at every point of every transition.
#include <papilio/container.hpp>
#include <vector>
#include <list>
#include <iterator>
#include <sstream>
#include <deque>
#include <numeric>
#include "vk.hpp"
#include "track.hpp"

using tk::st;

struct op { int k, x = 0, y = 0, v = 0; };
enum K { PUSH_C, PUSH_M, EMB, PUSH_ALIAS, PUSH_MALIAS, EMPLACE, INS_C, INS_M, INS_ALIAS, APP_LIST, APP_VEC, APP_INPUT, POP, RESIZE, RESIZE_V, RESIZE_ALIAS,
         CLEAR, RESERVE, SHRINK, ASG_IT, ASG_LIST, ASG_IL, ASG_RANGE, COPY_ASG, COPY_SELF, MOVE_ASG, SWAP, SWAP_SELF, FSWAP, COPY_CTOR, MOVE_CTOR, CTOR_RANGE, CTOR_IL, CTOR_ALLOC, SETAT, NK };
static const char* NAMES[] = {"push_back(const&)", "push_back(&&)", "emplace_back", "push_back(v[x])", "push_back(move(v[x]))", "emplace(x)", "insert(x,const&)", "insert(x,&&)", "insert(x,v[y])", "append_range(list x)", "append_range(vector x)", "append_range(input x)", "pop_back", "resize(x)", "resize(x,val)", "resize(x,v[y])",
    "clear", "reserve(x)", "shrink_to_fit", "assign(it x)", "assign(list x)", "assign(il x)", "assign_range(x)", "a=b", "a=a", "a=move(b)", "a.swap(b)", "a.swap(a)", "swap(b,a)", "copy-construct", "move-construct", "construct(range x)", "construct(il x)", "construct(alloc)", "v[x]=val"};
static std::string show(const std::vector<op>& h)
{
    std::string r;
    for(auto& o : h) { r += NAMES[o.k]; r += '{' + std::to_string(o.x) + ',' + std::to_string(o.y) + "}; "; }
    return r;
}

// a genuinely single-pass range
template <typename E> struct in_range
{
    std::vector<int>* src; std::size_t pos = 0;
    struct it
    {
        using iterator_category = std::input_iterator_tag; using iterator_concept = std::input_iterator_tag;
        using value_type = E; using difference_type = std::ptrdiff_t; using pointer = void; using reference = E;
        in_range* r = nullptr;
        E operator*() const { return E((*r->src)[r->pos]); }
        it& operator++() { ++r->pos; return *this; }
        void operator++(int) { ++r->pos; }
        friend bool operator==(const it& a, std::default_sentinel_t) { return a.r->pos == a.r->src->size(); }
    };
    it begin() { return it{this}; }
    std::default_sentinel_t end() { return {}; }
};

template <typename E, std::size_t N, bool Prop, int IDA, int IDB>
struct explorer
{
    using A = tk::alloc<E, Prop>;
    using SV = papilio::small_vector<E, N, A>;
    static constexpr bool nothrow = std::is_nothrow_move_constructible_v<E>;
    struct world
    {
        std::unique_ptr<SV> a, b;
        std::vector<int> ma, mb;
        std::string err;
        int fresh = 100;
    };
    using M = std::vector<int>;

    static M vals(const SV& s) { M r; for(std::size_t i = 0; i < s.size(); ++i) r.push_back(s[i].get()); return r; }
    static std::string str(const M& m) { std::string r = "["; for(int x : m) r += std::to_string(x) + " "; return r + "]"; }

    static bool enabled(std::size_t n, const op& o, std::size_t maxn)
    {
        std::size_t x = o.x;
        switch(o.k)
        {
        case PUSH_C: case PUSH_M: case EMB: return n + 1 <= maxn;
        case PUSH_ALIAS: case PUSH_MALIAS: return x < n && n + 1 <= maxn;
        case EMPLACE: case INS_C: case INS_M: return x <= n && n + 1 <= maxn;
        case INS_ALIAS: return x <= n && std::size_t(o.y) < n && n + 1 <= maxn;
        case APP_LIST: case APP_VEC: case APP_INPUT: return n + x <= maxn;
        case POP: return n > 0;
        case RESIZE: case RESIZE_V: case ASG_IT: case ASG_LIST: case ASG_RANGE: case CTOR_RANGE: return x <= maxn;
        case RESIZE_ALIAS: return x <= maxn && std::size_t(o.y) < n;
        case ASG_IL: case CTOR_IL: return x <= 4;
        case RESERVE: return x <= maxn + 1;
        case SETAT: return x < n;
        default: return true;
        }
    }

    // real operation; fills ret with what the operation returned (as text)
    static void real(world& w, const op& o, std::string& ret)
    {
        SV& a = *w.a;
        const int v = w.fresh;
        M src; for(int i = 0; i < o.x; ++i) src.push_back(v + i);
        auto it = [&](typename SV::iterator i) { ret = "@" + std::to_string(i - a.begin()) + "=" + std::to_string(i->get()); };
        auto rf = [&](E& r) { ret = "@" + std::to_string(&r - a.data()) + "=" + std::to_string(r.get()); };
        switch(o.k)
        {
        case PUSH_C: { const E e(v); a.push_back(e); break; }
        case PUSH_M: { E e(v); a.push_back(std::move(e)); break; }
        case EMB: rf(a.emplace_back(v)); break;
        case PUSH_ALIAS: a.push_back(a[o.x]); break;
        case PUSH_MALIAS: a.push_back(std::move(a[o.x])); break;
        case EMPLACE: it(a.emplace(a.cbegin() + o.x, v)); break;
        case INS_C: { const E e(v); it(a.insert(a.cbegin() + o.x, e)); break; }
        case INS_M: { E e(v); it(a.insert(a.cbegin() + o.x, std::move(e))); break; }
        case INS_ALIAS: it(a.insert(a.cbegin() + o.x, static_cast<const E&>(a[o.y]))); break;
        case APP_LIST: { std::list<E> l; for(int s : src) l.emplace_back(s); a.append_range(l); break; }
        case APP_VEC: { std::vector<E> l; l.reserve(src.size()); for(int s : src) l.emplace_back(s); a.append_range(l); break; }
        case APP_INPUT: { in_range<E> r{&src}; a.append_range(r); break; }
        case POP: a.pop_back(); break;
        case RESIZE: a.resize(o.x); break;
        case RESIZE_V: { const E e(v); a.resize(o.x, e); break; }
        case RESIZE_ALIAS: a.resize(o.x, a[o.y]); break;
        case CLEAR: a.clear(); break;
        case RESERVE: a.reserve(o.x); break;
        case SHRINK: a.shrink_to_fit(); break;
        case ASG_IT: { std::vector<E> l; l.reserve(src.size()); for(int s : src) l.emplace_back(s); a.assign(l.begin(), l.end()); break; }
        case ASG_LIST: { std::list<E> l; for(int s : src) l.emplace_back(s); a.assign(l.begin(), l.end()); break; }
        case ASG_RANGE: { std::vector<E> l; l.reserve(src.size()); for(int s : src) l.emplace_back(s); a.assign_range(l); break; }
        case ASG_IL:
            if(o.x == 0) a.assign(std::initializer_list<E>{});
            else if(o.x == 1) a.assign({E(v)});
            else if(o.x == 2) a.assign({E(v), E(v + 1)});
            else if(o.x == 3) a.assign({E(v), E(v + 1), E(v + 2)});
            else a.assign({E(v), E(v + 1), E(v + 2), E(v + 3)});
            break;
        case COPY_ASG: rf2(ret, &(a = *w.b) == &a); break;
        case COPY_SELF: { SV& r = a; rf2(ret, &(a = r) == &a); break; }
        case MOVE_ASG: rf2(ret, &(a = std::move(*w.b)) == &a); break;
        case SWAP: a.swap(*w.b); break;
        case SWAP_SELF: a.swap(a); break;
        case FSWAP: swap(*w.b, a); break;
        case COPY_CTOR: { auto t = std::make_unique<SV>(static_cast<const SV&>(a)); ret = str(vals(*t)) + std::to_string(t->get_allocator().id); w.a = std::move(t); break; }
        case MOVE_CTOR: { auto t = std::make_unique<SV>(std::move(a)); ret = str(vals(*t)) + " left " + str(vals(a)); w.a = std::move(t); break; }
        case CTOR_RANGE: { std::vector<E> l; l.reserve(src.size()); for(int s : src) l.emplace_back(s); auto t = std::make_unique<SV>(l.begin(), l.end(), A(a.get_allocator().id)); w.a = std::move(t); break; }
        case CTOR_IL:
        {
            std::unique_ptr<SV> t; A al(a.get_allocator().id);
            if(o.x == 0) t.reset(new SV(std::initializer_list<E>{}, al));
            else if(o.x == 1) t.reset(new SV({E(v)}, al));
            else if(o.x == 2) t.reset(new SV({E(v), E(v + 1)}, al));
            else if(o.x == 3) t.reset(new SV({E(v), E(v + 1), E(v + 2)}, al));
            else t.reset(new SV({E(v), E(v + 1), E(v + 2), E(v + 3)}, al));
            w.a = std::move(t);
            break;
        }
        case CTOR_ALLOC: w.a = std::make_unique<SV>(A(a.get_allocator().id)); break;
        case SETAT: a[o.x] = E(v); break;
        }
    }
    static void rf2(std::string& ret, bool b) { ret = b ? "self" : "not self"; }

    // the same on the model; returns what must be returned ("*" = anything)
    static std::string model(world& w, const op& o)
    {
        M& a = w.ma; const int v = w.fresh;
        M src; for(int i = 0; i < o.x; ++i) src.push_back(v + i);
        auto at = [&](std::size_t i) { return "@" + std::to_string(i) + "=" + std::to_string(a[i]); };
        std::string r;
        switch(o.k)
        {
        case PUSH_C: case PUSH_M: a.push_back(v); break;
        case EMB: a.push_back(v); r = at(a.size() - 1); break;
        case PUSH_ALIAS: a.push_back(int(a[o.x])); break;
        case PUSH_MALIAS: { int t = a[o.x]; a[o.x] = -1; a.push_back(t); break; }
        case EMPLACE: case INS_C: case INS_M: a.insert(a.begin() + o.x, v); r = at(o.x); break;
        case INS_ALIAS: { int t = a[o.y]; a.insert(a.begin() + o.x, t); r = at(o.x); break; }
        case APP_LIST: case APP_VEC: case APP_INPUT: a.insert(a.end(), src.begin(), src.end()); break;
        case POP: a.pop_back(); break;
        case RESIZE: a.resize(o.x, 0); break;
        case RESIZE_V: a.resize(o.x, v); break;
        case RESIZE_ALIAS: { int t = a[o.y]; a.resize(o.x, t); break; }
        case CLEAR: a.clear(); break;
        case ASG_IT: case ASG_LIST: case ASG_RANGE: case ASG_IL: case CTOR_RANGE: case CTOR_IL: a = src; break;
        case CTOR_ALLOC: a.clear(); break;
        case COPY_ASG: a = w.mb; r = "self"; break;
        case COPY_SELF: r = "self"; break;
        case MOVE_ASG: a = w.mb; r = "self"; break; // b: see sync
        case SWAP: case FSWAP: std::swap(w.ma, w.mb); break;
        case COPY_CTOR: r = "*"; break;
        case MOVE_CTOR: r = str(a) + " left []"; break;
        case SETAT: a[o.x] = v; break;
        default: break;
        }
        w.fresh += 8;
        return r;
    }

    static std::string check(const SV& c, SV& s, const M& m, const char* who)
    {
        auto bad = [&](std::string t) { return std::string(who) + ": " + t + "; elements " + str(vals(c)) + " expected " + str(m); };
        if(c.size() != m.size()) return bad("size " + std::to_string(c.size()));
        if(c.empty() != m.empty()) return bad("empty()");
        if(c.capacity() < c.size()) return bad("capacity below size");
        if(c.capacity() < N) return bad("capacity below the inline capacity");
        if(c.data() != c.begin() || s.data() != s.begin() || c.cbegin() != c.begin() || c.cend() != c.end()) return bad("data/begin");
        if(std::size_t(c.end() - c.begin()) != m.size()) return bad("iterator distance");
        const char* lo = reinterpret_cast<const char*>(&c); const char* d = reinterpret_cast<const char*>(c.data());
        bool inside = N == 0 ? d == nullptr : d >= lo && d < lo + sizeof(SV);
        if(inside == c.dynamic_allocated()) return bad("dynamic_allocated() contradicts the address of the elements");
        if(inside && c.capacity() != N) return bad("inline storage with another capacity");
        if(SV::static_capacity() != N) return bad("static_capacity");
        for(std::size_t i = 0; i < m.size(); ++i)
        {
            if(c[i].get() != m[i] || s[i].get() != m[i] || c.at(i).get() != m[i] || s.at(i).get() != m[i]) return bad("element " + std::to_string(i));
            if((c.begin() + i)->get() != m[i] || (c.crbegin() + i)->get() != m[m.size() - 1 - i] || (s.rbegin() + i)->get() != m[m.size() - 1 - i] || (s.begin() + i)->get() != m[i] || (c.rbegin() + i)->get() != m[m.size() - 1 - i]) return bad("iterator at " + std::to_string(i));
        }
        if(c.rend() - c.rbegin() != std::ptrdiff_t(m.size()) || s.rend() - s.rbegin() != std::ptrdiff_t(m.size()) || c.crend() != c.rend()) return bad("reverse distance");
        if(!m.empty() && (c.front().get() != m.front() || c.back().get() != m.back() || s.front().get() != m.front() || s.back().get() != m.back())) return bad("front/back");
        for(std::size_t i : {m.size(), m.size() + 1, std::size_t(-1)})
        {
            bool t1 = false, t2 = false;
            try { (void)c.at(i); } catch(const std::out_of_range&) { t1 = true; }
            try { (void)s.at(i); } catch(const std::out_of_range&) { t2 = true; }
            if(!t1 || !t2) return bad("at() out of range does not throw");
        }
        return {};
    }
    static std::string invariants(world& w)
    {
        if(!st.bad.empty()) return st.bad;
        if(st.live != long(w.a->size() + w.b->size())) return "alive elements: " + std::to_string(st.live) + ", contained: " + std::to_string(w.a->size() + w.b->size());
        std::size_t dyn = w.a->dynamic_allocated() + w.b->dynamic_allocated();
        if(st.blocks.size() != dyn) return "allocated blocks: " + std::to_string(st.blocks.size()) + ", containers on the heap: " + std::to_string(dyn);
        return {};
    }
    static std::string checks(world& w)
    {
        std::string e = invariants(w);
        if(e.empty()) e = check(*w.a, *w.a, w.ma, "a");
        if(e.empty()) e = check(*w.b, *w.b, w.mb, "b");
        if(e.empty()) e = st.bad;
        return e;
    }
    static void init(world& w)
    {
        st.reset();
        w.a = std::make_unique<SV>(A(IDA)); w.b = std::make_unique<SV>(A(IDB));
    }
    static void step(world& w, const op& o)
    {
        std::string ret;
        std::size_t cap = w.a->capacity(), n = w.a->size(); const void* d = w.a->data();
        real(w, o, ret);
        std::string want = model(w, o);
        if(want != "*" && ret != want) w.err = "returned " + ret + " expected " + want;
        if(o.k == MOVE_ASG) { w.mb = vals(*w.b); } // moved-from: valid, otherwise unspecified
        // no reallocation while the capacity suffices, and room as promised
        std::size_t n2 = w.a->size();
        if(w.err.empty() && o.k <= SHRINK && o.k != SHRINK && n2 <= cap && o.k != RESERVE && w.a->data() != d) w.err = "elements moved although capacity sufficed";
        if(w.err.empty() && o.k == RESERVE && (w.a->capacity() < std::size_t(o.x) || (std::size_t(o.x) <= cap && w.a->data() != d))) w.err = "reserve";
        if(w.err.empty() && o.k == SHRINK && w.a->capacity() != std::max(N, n)) w.err = "shrink_to_fit leaves capacity " + std::to_string(w.a->capacity());
    }
    static std::string finish(world& w)
    {
        w.a.reset(); w.b.reset();
        if(!st.bad.empty()) return st.bad;
        if(st.live) return "elements leaked: " + std::to_string(st.live);
        if(!st.blocks.empty()) return "memory leaked";
        return {};
    }

    static void explore(vk::S& s, std::size_t maxn, std::size_t maxother)
    {
        std::vector<op> menu;
        int mx = int(maxn);
        for(int k = 0; k < NK; ++k)
        {
            int X = 0, Y = 0;
            switch(k)
            {
            case PUSH_ALIAS: case PUSH_MALIAS: case EMPLACE: case INS_C: case INS_M: case APP_LIST: case APP_VEC: case APP_INPUT: case RESIZE: case RESIZE_V: case ASG_IT: case ASG_LIST: case ASG_IL: case ASG_RANGE: case CTOR_RANGE: case CTOR_IL: case SETAT: X = mx; break;
            case RESERVE: X = mx + 1; break;
            case INS_ALIAS: case RESIZE_ALIAS: X = mx; Y = mx; break;
            }
            for(int x = 0; x <= X; ++x)
                for(int y = 0; y <= Y; ++y)
                {
                    if((k == COPY_CTOR || k == SWAP || k == FSWAP || k == MOVE_ASG || k == COPY_ASG) && false) continue;
                    menu.push_back({k, x, y});
                }
        }
        struct node { std::vector<op> h; std::size_t na = 0; };
        auto key = [&](const world& w) {
            std::string k;
            auto add = [&](const SV& v) { k += std::to_string(v.size()) + "/" + std::to_string(v.capacity()) + (v.dynamic_allocated() ? "d" : "s") + std::to_string(v.get_allocator().id) + ","; };
            add(*w.a); add(*w.b);
            // moved-from elements are observable
            for(int x : w.ma) k += x == -1 ? 'm' : '.';
            k += '|';
            for(int x : w.mb) k += x == -1 ? 'm' : '.';
            return k;
        };
        std::set<std::string> seen;
        std::deque<node> q;
        auto moved = [](const M& m) { int k = 0; for(int x : m) k += x == -1; return k; };
        { world w; init(w); seen.insert(key(w)); q.push_back({}); finish(w); }
        while(!q.empty())
        {
            node cur = std::move(q.front()); q.pop_front();
            for(const op& o : menu)
            {
                if(!enabled(cur.na, o, maxn)) continue;
                if(!s.step_all()) continue;
                auto h2 = cur.h; h2.push_back(o);
                s.desc(show(h2));
                world w; init(w);
                std::string e;
                for(auto& x : cur.h) step(w, x);
                step(w, o);
                e = w.err;
                if(e.empty() && s.mine) e = checks(w);
                std::string k = key(w);
                bool within = w.ma.size() <= maxn && w.mb.size() <= maxother && moved(w.ma) + moved(w.mb) <= 1 && w.a->capacity() <= maxn + 3 && w.b->capacity() <= maxn + 3;
                std::size_t na = w.ma.size();
                std::string fe = finish(w);
                if(e.empty()) e = fe;
                if(s.mine) { s.trans(); s.state(s.name + k); s.sample(show(h2) + " -> " + k); }
                if(within && seen.insert(k).second) q.push_back({h2, na});
                if(!s.mine) continue;
                if(!e.empty()) { s.fail(e); continue; }
                // every failure point of this transition
                for(long f = 0;; ++f)
                {
                    world x; init(x);
                    for(auto& y : cur.h) step(x, y);
                    M before = vals(*x.a), beforeb = vals(*x.b);
                    st.countdown = f;
                    bool thrown = false;
                    std::string ret;
                    try { real(x, o, ret); } catch(const tk::Boom&) { thrown = true; }
                    bool exhausted = st.countdown >= 0;
                    st.countdown = -1;
                    std::string fe2;
                    s.trans();
                    if(thrown)
                    {
                        fe2 = invariants(x);
                        M after = vals(*x.a), afterb = vals(*x.b);
                        if(fe2.empty()) fe2 = check(*x.a, *x.a, after, "a");
                        if(fe2.empty()) fe2 = check(*x.b, *x.b, afterb, "b");
                        // strong guarantee where std::vector gives it
                        if(fe2.empty() && nothrow && (o.k == PUSH_C || o.k == PUSH_M || o.k == EMB || o.k == PUSH_ALIAS || o.k == RESERVE || o.k == SHRINK || o.k == COPY_CTOR) && after != before)
                            fe2 = "failed operation changed the contents: " + str(after) + " before " + str(before);
                        if(fe2.empty() && o.k != SWAP && o.k != FSWAP && o.k != MOVE_ASG && afterb != beforeb) fe2 = "the other vector changed";
                        // still usable
                        if(fe2.empty())
                        {
                            x.a->clear(); x.a->emplace_back(7); x.a->emplace_back(8); x.b->clear(); x.b->emplace_back(9);
                            if(vals(*x.a) != M{7, 8} || vals(*x.b) != M{9}) fe2 = "unusable afterwards";
                        }
                    }
                    else if(!exhausted) fe2 = "the failure was swallowed";
                    std::string fe3 = finish(x);
                    if(fe2.empty()) fe2 = fe3;
                    if(!fe2.empty()) { s.fail("failure point " + std::to_string(f) + " of the last operation: " + fe2); break; }
                    if(!thrown) break;
                }
            }
        }
    }
};

// plain ints with the standard allocator: layout-dependent paths
template <std::size_t N>
static void trivial(vk::S& s)
{
    using SV = papilio::small_vector<int, N>;
    // all sequences over a small menu
    const int depth = vk::thorough() ? 7 : 6;
    const int MENU = 8;
    long total = 1; for(int i = 0; i < depth; ++i) total *= MENU;
    for(long c = 0; c < total; ++c)
    {
        if(!s.next()) continue;
        std::string d; long t = c;
        for(int i = 0; i < depth; ++i, t /= MENU) d += char('a' + t % MENU);
        s.desc("int/" + std::to_string(N) + ":" + d);
        auto v = std::make_unique<SV>(); auto u = std::make_unique<SV>(); std::vector<int> m, mu; int f = 1;
        for(char ch : d)
        {
            s.trans();
            switch(ch)
            {
            case 'a': v->push_back(f); m.push_back(f); ++f; break;
            case 'b': v->insert(v->begin(), f); m.insert(m.begin(), f); ++f; break;
            case 'c': if(!m.empty()) { v->pop_back(); m.pop_back(); } break;
            case 'd': v->swap(*u); m.swap(mu); break;
            case 'e': *u = *v; mu = m; break;
            case 'f': { std::vector<int> x{f, f + 1, f + 2}; v->append_range(x); m.insert(m.end(), x.begin(), x.end()); f += 3; break; }
            case 'g': v->shrink_to_fit(); break;
            case 'h': v->emplace(v->begin() + m.size() / 2, f); m.insert(m.begin() + m.size() / 2, f); ++f; break;
            }
        }
        std::string got(reinterpret_cast<const char*>(v->data()), v->size() * sizeof(int)), want(reinterpret_cast<const char*>(m.data()), m.size() * sizeof(int));
        std::string got2(reinterpret_cast<const char*>(u->data()), u->size() * sizeof(int)), want2(reinterpret_cast<const char*>(mu.data()), mu.size() * sizeof(int));
        s.state(want + "|" + want2);
        if(got != want || got2 != want2) s.fail("contents differ");
    }
}

template <typename E, std::size_t N, bool P, int I, int J>
static void add(const char* nm, std::size_t q, std::size_t t, std::size_t o)
{
    vk::section(nm, [=](vk::S& s) { explorer<E, N, P, I, J>::explore(s, vk::thorough() ? t : q, vk::thorough() ? o + 1 : o); });
}

int main(int argc, char** argv)
{
    using EN = tk::elem<false>; using ET = tk::elem<true>;
    add<EN, 0, false, 1, 1>("nothrow-move N=0", 3, 4, 2);
    add<EN, 1, false, 1, 1>("nothrow-move N=1", 3, 5, 2);
    add<EN, 2, false, 1, 1>("nothrow-move N=2", 4, 5, 2);
    add<EN, 3, true, 1, 2>("nothrow-move N=3 propagating allocators", 4, 5, 2);
    add<ET, 2, false, 1, 1>("throwing-move N=2", 3, 4, 2);
    add<ET, 1, true, 1, 2>("throwing-move N=1 propagating allocators", 3, 4, 2);
    vk::section("int N=2", trivial<2>);
    vk::section("int N=4", trivial<4>);
    return vk::main(argc, argv, "C12");
}
