// C13: fixed_vector against std::vector, fixed_flat_map against std::map
#include <papilio/container.hpp>
#include <vector>
#include <deque>
#include <string>
#include <optional>
#include "vk.hpp"
#include "track.hpp"

using tk::st;
using M = std::vector<int>;
static std::string str(const M& m) { std::string r = "["; for(int x : m) r += std::to_string(x) + " "; return r + "]"; }

struct op { int k, x = 0, y = 0; };

// ---------------------------------------------------------------- vector
enum VK { PUSH_C, PUSH_M, EMB, PUSH_ALIAS, EMPLACE, INS_C, INS_M, INS_ALIAS, INS_MALIAS, POP, CLEAR, COPY, MOVE, FILL, SETAT, NVK };
static const char* VN[] = {"push_back(const&)", "push_back(&&)", "emplace_back", "push_back(v[x])", "emplace(x)", "insert(x,const&)", "insert(x,&&)", "insert(x,v[y])", "insert(x,copy of v[y])", "pop_back", "clear", "copy-construct", "move-construct", "construct(x,val)", "v[x]=val"};

template <typename E, std::size_t C>
struct vec
{
    using FV = papilio::fixed_vector<E, C>;
    struct world { std::unique_ptr<FV> a; M m; int fresh = 100; std::string err; };
    static M vals(const FV& v) { M r; for(std::size_t i = 0; i < v.size(); ++i) r.push_back(v[i].get()); return r; }

    static bool enabled(std::size_t n, const op& o)
    {
        std::size_t x = o.x, y = o.y;
        switch(o.k)
        {
        case PUSH_ALIAS: case SETAT: return x < n;
        case EMPLACE: case INS_C: case INS_M: return x <= n;
        case INS_ALIAS: case INS_MALIAS: return x <= n && y < n;
        case POP: return n > 0;
        case FILL: return x <= C + 1;
        default: return true;
        }
    }
    static void real(world& w, const op& o, std::string& ret)
    {
        FV& a = *w.a; const int v = w.fresh;
        auto it = [&](typename FV::iterator i) { ret = "@" + std::to_string(i - a.begin()) + "=" + std::to_string(i->get()); };
        switch(o.k)
        {
        case PUSH_C: { const E e(v); a.push_back(e); break; }
        case PUSH_M: { E e(v); a.push_back(std::move(e)); break; }
        case EMB: { E& r = a.emplace_back(v); ret = "@" + std::to_string(&r - a.data()) + "=" + std::to_string(r.get()); break; }
        case PUSH_ALIAS: a.push_back(static_cast<const E&>(a[o.x])); break;
        case EMPLACE: it(a.emplace(a.cbegin() + o.x, v)); break;
        case INS_C: { const E e(v); it(a.insert(a.cbegin() + o.x, e)); break; }
        case INS_M: { E e(v); it(a.insert(a.cbegin() + o.x, std::move(e))); break; }
        case INS_ALIAS: it(a.insert(a.cbegin() + o.x, static_cast<const E&>(a[o.y]))); break;
        case INS_MALIAS: { E e(a[o.y]); it(a.insert(a.cbegin() + o.x, std::move(e))); break; }
        case POP: a.pop_back(); break;
        case CLEAR: a.clear(); break;
        case COPY: { auto t = std::make_unique<FV>(static_cast<const FV&>(a)); ret = str(vals(*t)) + " from " + str(vals(a)); w.a = std::move(t); break; }
        case MOVE: { auto t = std::make_unique<FV>(std::move(a)); ret = str(vals(*t)); w.a = std::move(t); break; }
        case FILL: { const E e(v); auto t = std::make_unique<FV>(std::size_t(o.x), e); w.a = std::move(t); break; }
        case SETAT: a[o.x] = E(v); break;
        }
    }
    static std::string model(world& w, const op& o) // "!" = length_error
    {
        M& a = w.m; const int v = w.fresh; w.fresh += 8;
        auto at = [&](std::size_t i) { return "@" + std::to_string(i) + "=" + std::to_string(a[i]); };
        bool grows = (o.k <= INS_MALIAS);
        if(grows && a.size() == C) return "!";
        switch(o.k)
        {
        case PUSH_C: case PUSH_M: a.push_back(v); return "";
        case EMB: a.push_back(v); return at(a.size() - 1);
        case PUSH_ALIAS: a.push_back(int(a[o.x])); return "";
        case EMPLACE: case INS_C: case INS_M: a.insert(a.begin() + o.x, v); return at(o.x);
        case INS_ALIAS: case INS_MALIAS: { int t = a[o.y]; a.insert(a.begin() + o.x, t); return at(o.x); }
        case POP: a.pop_back(); return "";
        case CLEAR: a.clear(); return "";
        case COPY: return str(a) + " from " + str(a);
        case MOVE: return str(a);
        case FILL: if(std::size_t(o.x) > C) return "!"; a.assign(o.x, v); return "";
        case SETAT: a[o.x] = v; return "";
        }
        return "";
    }
    static std::string check(FV& s, const M& m)
    {
        const FV& c = s;
        auto bad = [&](std::string t) { return t + "; elements " + str(vals(c)) + " expected " + str(m); };
        if(!st.bad.empty()) return st.bad;
        if(st.live != long(c.size())) return bad("alive elements " + std::to_string(st.live));
        if(c.size() != m.size() || c.empty() != m.empty()) return bad("size");
        if(c.capacity() != C || FV::max_size() != C) return bad("capacity");
        if(std::size_t(c.end() - c.begin()) != m.size() || c.data() != c.begin() || s.data() != s.begin() || c.cbegin() != c.begin() || c.cend() != c.end() || std::size_t(s.end() - s.begin()) != m.size()) return bad("iterators");
        for(std::size_t i = 0; i < m.size(); ++i)
            if(c[i].get() != m[i] || s[i].get() != m[i] || c.at(i).get() != m[i] || s.at(i).get() != m[i] || (c.begin() + i)->get() != m[i]) return bad("element " + std::to_string(i));
        if(!m.empty() && (c.front().get() != m.front() || c.back().get() != m.back() || s.front().get() != m.front() || s.back().get() != m.back())) return bad("front/back");
        for(std::size_t i : {m.size(), m.size() + 1, std::size_t(-1)})
        {
            int t = 0;
            try { (void)c.at(i); } catch(const std::out_of_range&) { ++t; }
            try { (void)s.at(i); } catch(const std::out_of_range&) { ++t; }
            if(t != 2) return bad("at() out of range does not throw");
        }
        return st.bad;
    }
    static void step(world& w, const op& o)
    {
        std::string ret; bool le = false;
        M before = vals(*w.a);
        try { real(w, o, ret); } catch(const std::length_error&) { le = true; }
        std::string want = model(w, o);
        if(le != (want == "!")) w.err = le ? "refused although there is room" : "not refused although full";
        else if(!le && ret != want) w.err = "returned " + ret + " expected " + want;
    }
    static std::string finish(world& w)
    {
        w.a.reset();
        if(!st.bad.empty()) return st.bad;
        if(st.live) return "elements leaked: " + std::to_string(st.live);
        return {};
    }
    static void init(world& w) { st.reset(); w.a = std::make_unique<FV>(); }
    static std::string show(const std::vector<op>& h) { std::string r; for(auto& o : h) r += std::string(VN[o.k]) + "{" + std::to_string(o.x) + "," + std::to_string(o.y) + "}; "; return r; }

    static void explore(vk::S& s, int depth)
    {
        std::vector<op> menu;
        for(int k = 0; k < NVK; ++k)
        {
            int X = 0, Y = 0;
            if(k == PUSH_ALIAS || k == EMPLACE || k == INS_C || k == INS_M || k == SETAT) X = C;
            if(k == FILL) X = C + 1;
            if(k == INS_ALIAS || k == INS_MALIAS) X = Y = C;
            for(int x = 0; x <= X; ++x) for(int y = 0; y <= Y; ++y) menu.push_back({k, x, y});
        }
        // all sequences up to the depth, merged on (equality pattern of contents, depth)
        std::set<std::string> seen; std::deque<std::pair<std::vector<op>, std::size_t>> q;
        q.push_back({{}, 0});
        while(!q.empty())
        {
            auto [h, n] = q.front(); q.pop_front();
            for(auto& o : menu)
            {
                if(!enabled(n, o) || !s.step_all()) continue;
                auto h2 = h; h2.push_back(o); s.desc(show(h2));
                world w; init(w);
                for(auto& x : h) step(w, x);
                step(w, o);
                std::string e = w.err;
                if(e.empty() && s.mine) e = check(*w.a, w.m);
                std::string k; std::map<int, int> ren; for(int x : w.m) k += char('a' + ren.emplace(x, int(ren.size())).first->second);
                std::size_t n2 = w.m.size();
                std::string fe = finish(w); if(e.empty()) e = fe;
                if(s.mine) { s.trans(); s.state(s.name + k); s.sample(show(h2) + "-> " + k); }
                if(int(h2.size()) < depth && seen.insert(k).second) q.push_back({h2, n2});
                if(!s.mine) continue;
                if(!e.empty()) { s.fail(e); continue; }
                for(long f = 0;; ++f)
                {
                    world x; init(x);
                    for(auto& y : h) step(x, y);
                    M before = vals(*x.a);
                    st.countdown = f; bool thrown = false; std::string ret;
                    try { real(x, o, ret); } catch(const tk::Boom&) { thrown = true; } catch(const std::length_error&) {}
                    bool exhausted = st.countdown >= 0; st.countdown = -1;
                    std::string fe2; s.trans();
                    if(thrown)
                    {
                        M after = vals(*x.a);
                        fe2 = check(*x.a, after);
                        if(fe2.empty() && std::is_nothrow_move_constructible_v<E> && (o.k <= INS_MALIAS || o.k == COPY) && after != before) fe2 = "failed operation changed the contents: " + str(after) + " before " + str(before);
                        if(fe2.empty() && C > 0) { x.a->clear(); x.a->emplace_back(7); if(vals(*x.a) != M{7}) fe2 = "unusable afterwards"; }
                    }
                    else if(!exhausted) fe2 = "the failure was swallowed";
                    std::string fe3 = finish(x); if(fe2.empty()) fe2 = fe3;
                    if(!fe2.empty()) { s.fail("failure point " + std::to_string(f) + ": " + fe2); break; }
                    if(!thrown) break;
                }
            }
        }
    }
};

// ---------------------------------------------------------------- map
template <typename E> struct keyconv;
template <> struct keyconv<int> { static int mk(int k) { return k; } static int back(int k) { return k; } using look = int; static look lk(int k) { return k; } };
template <> struct keyconv<std::string>
{
    static std::string mk(int k) { return "key number " + std::to_string(50 + k); }
    static int back(const std::string& s) { return std::stoi(s.substr(11)) - 50; }
    using look = std::string; static look lk(int k) { return mk(k); }
};
template <bool B> struct keyconv<tk::elem<B>>
{
    static tk::elem<B> mk(int k) { return tk::elem<B>(k); }
    static int back(const tk::elem<B>& e) { return e.get(); }
};

template <typename Key, typename E, std::size_t C, typename Cmp, bool Desc>
struct fmap
{
    using FM = papilio::fixed_flat_map<Key, E, C, Cmp>;
    using KC = keyconv<Key>;
    static constexpr int K = 5; // keys 1,3,5,.. present or not; even and outer keys always absent
    struct world { std::unique_ptr<FM> a; std::map<int, int> m; std::string err; };
    static int kv(int i) { return 2 * i + 1; }
    enum { IOA, IOA_M, TRY, TRY0, AT_SET, COPY, MOVE, NK };
    static std::string show(const std::vector<op>& h)
    {
        static const char* N[] = {"insert_or_assign", "insert_or_assign(&&)", "try_emplace(k,v)", "try_emplace(k)", "at(k)=v", "copy-construct", "move-construct"};
        std::string r; for(auto& o : h) r += std::string(N[o.k]) + "{" + std::to_string(o.x) + "," + std::to_string(o.y) + "}; "; return r;
    }
    static std::string pos(FM& a, typename FM::iterator it) { return std::to_string(KC::back(it->first)) + "->" + std::to_string(it->second.get()); }
    static void real(world& w, const op& o, std::string& ret)
    {
        FM& a = *w.a;
        switch(o.k)
        {
        case IOA: { const E e(o.y); auto r = a.insert_or_assign(KC::mk(kv(o.x)), e); ret = pos(a, r.first) + (r.second ? " new" : " old"); break; }
        case IOA_M: { E e(o.y); auto r = a.insert_or_assign(KC::mk(kv(o.x)), std::move(e)); ret = pos(a, r.first) + (r.second ? " new" : " old"); break; }
        case TRY: { auto r = a.try_emplace(KC::mk(kv(o.x)), o.y); ret = pos(a, r.first) + (r.second ? " new" : " old"); break; }
        case TRY0: { auto r = a.try_emplace(KC::mk(kv(o.x))); ret = pos(a, r.first) + (r.second ? " new" : " old"); break; }
        case AT_SET: { try { a.at(KC::mk(kv(o.x))) = E(o.y); ret = "set"; } catch(const std::out_of_range&) { ret = "absent"; } break; }
        case COPY: { auto t = std::make_unique<FM>(static_cast<const FM&>(a)); w.a = std::move(t); break; }
        case MOVE: { auto t = std::make_unique<FM>(std::move(a)); w.a = std::move(t); break; }
        }
    }
    static std::string model(world& w, const op& o)
    {
        auto& m = w.m; int k = kv(o.x); auto it = m.find(k);
        switch(o.k)
        {
        case IOA: case IOA_M:
            if(it == m.end() && m.size() == C) return "!";
            m[k] = o.y; return std::to_string(k) + "->" + std::to_string(o.y) + (it == m.end() ? " new" : " old");
        case TRY: case TRY0:
        {
            if(it == m.end() && m.size() == C) return "!";
            bool nw = it == m.end(); if(nw) m[k] = o.k == TRY ? o.y : 0;
            return std::to_string(k) + "->" + std::to_string(m[k]) + (nw ? " new" : " old");
        }
        case AT_SET: if(it == m.end()) return "absent"; it->second = o.y; return "set";
        }
        return "";
    }
    static std::vector<std::pair<int, int>> contents(FM& a)
    {
        std::vector<std::pair<int, int>> r; for(auto& p : a) r.emplace_back(KC::back(p.first), p.second.get()); return r;
    }
    static std::vector<std::pair<int, int>> want(const std::map<int, int>& m)
    {
        std::vector<std::pair<int, int>> r(m.begin(), m.end()); if(Desc) std::reverse(r.begin(), r.end()); return r;
    }
    static std::string show(const std::vector<std::pair<int, int>>& v) { std::string r; for(auto& [a, b] : v) r += std::to_string(a) + "=" + std::to_string(b) + " "; return "[" + r + "]"; }
    static std::string check(FM& s, const std::map<int, int>& m)
    {
        const FM& c = s; auto w = want(m);
        auto bad = [&](std::string t) { return t + "; contents " + show(contents(s)) + " expected " + show(w); };
        if(!st.bad.empty()) return st.bad;
        if(s.size() != m.size() || s.empty() != m.empty() || FM::max_size() != C) return bad("size");
        if(contents(s) != w) return bad("contents");
        long per = 1 + (std::is_class_v<Key> && !std::is_same_v<Key, std::string>);
        if(st.live != per * long(m.size())) return bad("alive elements " + std::to_string(st.live));
        for(int k = -1; k <= 2 * K + 1; ++k)
        {
            bool in = m.count(k); auto key = KC::mk(k);
            auto it = s.find(key); auto ci = c.find(key);
            if((it != s.end()) != in || (ci != c.end()) != in || c.contains(key) != in) return bad("lookup of " + std::to_string(k));
            if(in && (it->second.get() != m.at(k) || KC::back(ci->first) != k)) return bad("found another entry for " + std::to_string(k));
            std::size_t lb = std::count_if(w.begin(), w.end(), [&](auto& p) { return Desc ? p.first > k : p.first < k; });
            if(std::size_t(s.lower_bound(key) - s.begin()) != lb || std::size_t(c.lower_bound(key) - c.begin()) != lb) return bad("lower_bound of " + std::to_string(k));
            int v1 = -7, v2 = -7;
            try { v1 = s.at(key).get(); } catch(const std::out_of_range&) {}
            try { v2 = c.at(key).get(); } catch(const std::out_of_range&) {}
            int x = in ? m.at(k) : -7;
            if(v1 != x || v2 != x) return bad("at(" + std::to_string(k) + ")");
            if constexpr(std::is_same_v<Key, std::string> && papilio::is_transparent_v<Cmp>)
            {
                std::string_view sv = key;
                if((s.find(sv) != s.end()) != in || (c.find(sv) != c.end()) != in || c.contains(sv) != in || std::size_t(s.lower_bound(sv) - s.begin()) != lb) return bad("heterogeneous lookup of " + std::to_string(k));
            }
        }
        return st.bad;
    }
    static void step(world& w, const op& o)
    {
        std::string ret; bool le = false;
        try { real(w, o, ret); } catch(const std::length_error&) { le = true; }
        std::string want = model(w, o);
        if(le != (want == "!")) w.err = le ? "refused although there is room" : "not refused although full";
        else if(!le && ret != want) w.err = "returned " + ret + " expected " + want;
    }
    static std::string finish(world& w)
    {
        w.a.reset(); if(!st.bad.empty()) return st.bad;
        if(st.live) return "elements leaked: " + std::to_string(st.live);
        return {};
    }
    static void init(world& w) { st.reset(); w.a = std::make_unique<FM>(); }
    static void explore(vk::S& s)
    {
        std::vector<op> menu;
        for(int k = 0; k < NK; ++k)
        {
            if(k >= COPY) { menu.push_back({k}); continue; }
            for(int x = 0; x < K; ++x) for(int y = 1; y <= 2; ++y) if(k != TRY0 || y == 1) menu.push_back({k, x, y});
        }
        std::set<std::string> seen{"[]"}; std::deque<std::vector<op>> q; q.push_back({});
        while(!q.empty())
        {
            auto h = q.front(); q.pop_front();
            for(auto& o : menu)
            {
                if(!s.step_all()) continue;
                auto h2 = h; h2.push_back(o); s.desc(show(h2));
                world w; init(w);
                std::string e = h.empty() && s.mine ? check(*w.a, w.m) : "";
                for(auto& x : h) step(w, x);
                step(w, o);
                if(e.empty()) e = w.err;
                if(e.empty() && s.mine) e = check(*w.a, w.m);
                std::string k = show(want(w.m));
                std::string fe = finish(w); if(e.empty()) e = fe;
                if(s.mine) { s.trans(); s.state(s.name + k); s.sample(show(h2) + "-> " + k); }
                if(seen.insert(k).second) q.push_back(h2);
                if(!s.mine) continue;
                if(!e.empty()) { s.fail(e); continue; }
                for(long f = 0;; ++f)
                {
                    world x; init(x);
                    for(auto& y : h) step(x, y);
                    auto before = contents(*x.a);
                    st.countdown = f; bool thrown = false; std::string ret;
                    try { real(x, o, ret); } catch(const tk::Boom&) { thrown = true; } catch(const std::length_error&) {}
                    bool exhausted = st.countdown >= 0; st.countdown = -1; s.trans();
                    std::string fe2;
                    if(thrown)
                    {
                        auto after = contents(*x.a);
                        if(!st.bad.empty()) fe2 = st.bad;
                        if(fe2.empty() && std::is_nothrow_move_constructible_v<E> && o.k <= COPY && after != before && o.k != MOVE) fe2 = "failed operation changed the contents: " + show(after) + " before " + show(before);
                        long per = 1 + (std::is_class_v<Key> && !std::is_same_v<Key, std::string>);
                        if(fe2.empty() && st.live != per * long(after.size())) fe2 = "alive elements " + std::to_string(st.live);
                    }
                    else if(!exhausted) fe2 = "the failure was swallowed";
                    std::string fe3 = finish(x); if(fe2.empty()) fe2 = fe3;
                    if(!fe2.empty()) { s.fail("failure point " + std::to_string(f) + ": " + fe2); break; }
                    if(!thrown) break;
                }
            }
        }
    }
};

template <typename E, std::size_t C> static void addv(const char* n, int q, int t)
{
    vk::section(n, [=](vk::S& s) { vec<E, C>::explore(s, vk::thorough() ? t : q); });
}
int main(int argc, char** argv)
{
    using EN = tk::elem<false>; using ET = tk::elem<true>;
    addv<EN, 0>("fixed_vector C=0", 4, 8);
    addv<EN, 1>("fixed_vector C=1", 6, 12);
    addv<EN, 2>("fixed_vector C=2", 8, 12);
    addv<EN, 3>("fixed_vector C=3", 9, 14);
    addv<EN, 4>("fixed_vector C=4", 9, 14);
    addv<EN, 6>("fixed_vector C=6", 5, 14);
    addv<ET, 3>("fixed_vector C=3 throwing move", 9, 14);
    vk::section("map int C=0", fmap<int, EN, 0, std::less<>, false>::explore);
    vk::section("map int C=1", fmap<int, EN, 1, std::less<>, false>::explore);
    vk::section("map int C=3", fmap<int, EN, 3, std::less<>, false>::explore);
    vk::section("map int C=5", fmap<int, EN, 5, std::less<>, false>::explore);
    vk::section("map int less<int> C=4", fmap<int, EN, 4, std::less<int>, false>::explore);
    vk::section("map int greater C=4", fmap<int, EN, 4, std::greater<>, true>::explore);
    vk::section("map string C=4", fmap<std::string, EN, 4, std::less<>, false>::explore);
    vk::section("map string less<string> C=3", fmap<std::string, EN, 3, std::less<std::string>, false>::explore);
    vk::section("map tracked keys C=3", fmap<EN, EN, 3, std::less<>, false>::explore);
    vk::section("map tracked keys throwing move C=3", fmap<EN, ET, 3, std::less<>, false>::explore);
    return vk::main(argc, argv, "C13");
}
