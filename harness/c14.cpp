// C14: optional_unique_ptr: exactly-once deletion over the closed state graph of two pointers
#include <papilio/memory.hpp>
#include <deque>
#include <memory>
#include "vk.hpp"

struct obj_log { std::vector<int> deleted; std::vector<int> by; };
static obj_log L;
static int g_by = 0; // deleter identity in effect

struct obj { int id; explicit obj(int i) : id(i) {} obj() : id(-1) {} ~obj() { if(id >= 0 && id < int(L.deleted.size())) { ++L.deleted[id]; L.by[id] = g_by; } } };
struct del1 { int id = 0; void operator()(obj* p) const { g_by = id; delete p; g_by = 0; } };
struct delA { int id = 0; void operator()(obj* p) const { g_by = id; delete[] p; g_by = 0; } };

// single objects or arrays of two (the first element carries the identity)
template <bool Arr, bool Stateful> struct cfg
{
    using T = std::conditional_t<Arr, obj[], obj>;
    using D = std::conditional_t<Stateful, std::conditional_t<Arr, delA, del1>, std::default_delete<T>>;
    using P = papilio::optional_unique_ptr<T, D>;
    using U = std::unique_ptr<T, D>;
    static obj* make(int id)
    {
        if constexpr(Arr) { auto* a = new obj[2]; a[0].id = id; return a; }
        else return new obj(id);
    }
    static void kill(obj* p) { if constexpr(Arr) delete[] p; else delete p; }
    static U mk_u(int id, int d)
    {
        if constexpr(Stateful) return U(id < 0 ? nullptr : make(id), D{d});
        else return U(id < 0 ? nullptr : make(id));
    }
};

struct mp { int id = -1; bool own = false; int del = 0; }; // model pointer (del: -1 unconstrained)
struct op { int k, x; };
enum { RESET, RESET_NULL, RESET_OWN, RESET_OBS, RESET_NULLOWN, RESET_IND, RESET_UP, RESET_UPNULL, COPY_A, MOVE_A, SWAP, RELEASE, COPY_C, MOVE_C, SELF_COPY, SELF_MOVE,
       CT_OWN, CT_OBS, CT_NULLOWN, CT_UP, CT_UPNULL, CT_NULL, CT_DEF, CT_MAKE, CT_TO, CT_IND, CT_OBS_OTHER, DESTROY_OTHER, NK };
static const char* NM[] = {"reset()", "reset(nullptr)", "reset(new,true)", "reset(ext,false)", "reset(null,true)", "reset(independent,new)", "reset(unique_ptr)", "reset(null unique_ptr)", "x=y", "x=move(y)", "x.swap(y)", "release", "copy-construct", "move-construct", "x=x", "x=move(x)",
    "x{new,true}", "x{ext,false}", "x{null,true}", "x{unique_ptr}", "x{null unique_ptr}", "x{nullptr}", "x{}", "make_optional_unique", "pointer_to", "x{independent,new}", "x{y} (observe)", "x{move(y)}"};

template <typename C, bool Arr, bool Stateful>
struct explorer
{
    using P = typename C::P;
    struct world
    {
        std::unique_ptr<P> p[2]; mp m[2];
        std::vector<obj*> addr; std::vector<int> expect; // objects and expected deletions
        std::vector<int> wantdel;                        // deleter that must be used, -1 any
        std::vector<int> ext;                            // objects the harness frees
        std::string err; int nd = 10;
    };
    static int fresh(world& w, bool external, int wd = -1)
    {
        int id = int(w.addr.size());
        L.deleted.push_back(0); L.by.push_back(0);
        w.addr.push_back(C::make(id)); w.expect.push_back(0); w.wantdel.push_back(wd);
        if(external) w.ext.push_back(id);
        return id;
    }
    static int reserve_id(world& w, int wd) { int id = int(w.addr.size()); L.deleted.push_back(0); L.by.push_back(0); w.addr.push_back(nullptr); w.expect.push_back(0); w.wantdel.push_back(wd); return id; }
    static void drop(world& w, mp& m) { if(m.own) ++w.expect[m.id]; m.id = -1; m.own = false; }
    static bool enabled(const world& w, const op& o)
    {
        const mp& x = w.m[o.x]; const mp& y = w.m[1 - o.x];
        if((o.k == COPY_A || o.k == MOVE_A) && x.own && x.id == y.id) return false;
        if((o.k == DESTROY_OTHER) && x.own && x.id == y.id) return false;
        if(Arr && (o.k == RESET_IND || o.k == CT_IND || o.k == CT_TO)) return false;
        if(Stateful && o.k == CT_MAKE) return false;
        return true;
    }
    static void step(world& w, const op& o)
    {
        mp& x = w.m[o.x]; mp& y = w.m[1 - o.x]; auto& px = w.p[o.x]; auto& py = w.p[1 - o.x];
        switch(o.k)
        {
        case RESET: drop(w, x); px->reset(); break;
        case RESET_NULL: drop(w, x); px->reset(nullptr); break;
        case RESET_OWN: { int id = fresh(w, false); drop(w, x); x.id = id; x.own = true; px->reset(w.addr[id], true); break; }
        case RESET_OBS: { int id = fresh(w, true); drop(w, x); x.id = id; px->reset(w.addr[id], false); break; }
        case RESET_NULLOWN: drop(w, x); px->reset(static_cast<obj*>(nullptr), true); break;
        case RESET_IND: if constexpr(!Arr) { int id = fresh(w, false); drop(w, x); x.id = id; x.own = true; px->reset(papilio::independent, w.addr[id]); } break;
        case RESET_UP: { int d = Stateful ? w.nd++ : -1; int id = reserve_id(w, d); auto u = C::mk_u(id, d); w.addr[id] = u.get(); drop(w, x); x.id = id; x.own = true; px->reset(std::move(u)); if(u) w.err = "unique_ptr still owns"; break; }
        case RESET_UPNULL: { drop(w, x); px->reset(C::mk_u(-1, 99)); break; }
        case COPY_A: drop(w, x); x.id = y.id; if(&(*px = static_cast<const P&>(*py)) != px.get()) w.err = "return"; break;
        case MOVE_A: drop(w, x); x.id = y.id; x.own = y.own; y.id = -1; y.own = false; if(&(*px = std::move(*py)) != px.get()) w.err = "return"; break;
        case SWAP: std::swap(x.id, y.id); std::swap(x.own, y.own); px->swap(*py); break;
        case RELEASE:
        {
            int id = x.id; bool own = x.own; x.id = -1; x.own = false;
            obj* r = px->release();
            if(r != (id < 0 ? nullptr : w.addr[id])) w.err = "release returned another pointer";
            if(own) { ++w.expect[id]; w.wantdel[id] = -1; C::kill(r); }
            break;
        }
        case COPY_C: { P t(static_cast<const P&>(*px)); if(t.get() != px->get() || t.has_ownership()) w.err = "copy"; break; }
        case MOVE_C: { auto t = std::make_unique<P>(std::move(*px)); if(px->get() || px->has_ownership()) w.err = "source of move not empty"; px = std::move(t); break; }
        case SELF_COPY: { P& r = *px; *px = static_cast<const P&>(r); break; }
        case SELF_MOVE: { P& r = *px; *px = std::move(r); break; }
        case CT_OWN: { int id = fresh(w, false); px.reset(); drop(w, x); px = std::make_unique<P>(w.addr[id], true); x.id = id; x.own = true; break; }
        case CT_OBS: { int id = fresh(w, true); px.reset(); drop(w, x); px = std::make_unique<P>(w.addr[id], false); x.id = id; break; }
        case CT_NULLOWN: px.reset(); drop(w, x); px = std::make_unique<P>(static_cast<obj*>(nullptr), true); break;
        case CT_UP: { int d = Stateful ? w.nd++ : -1; int id = reserve_id(w, d); auto u = C::mk_u(id, d); w.addr[id] = u.get(); px.reset(); drop(w, x); px = std::make_unique<P>(std::move(u)); x.id = id; x.own = true; break; }
        case CT_UPNULL: px.reset(); drop(w, x); px = std::make_unique<P>(C::mk_u(-1, 98)); break;
        case CT_NULL: px.reset(); drop(w, x); px = std::make_unique<P>(nullptr); break;
        case CT_DEF: px.reset(); drop(w, x); px = std::make_unique<P>(); break;
        case CT_MAKE:
            if constexpr(!Stateful)
            {
                int id = reserve_id(w, -1); px.reset(); drop(w, x);
                if constexpr(Arr) { px = std::make_unique<P>(papilio::make_optional_unique<obj[]>(2)); w.addr[id] = px->get(); (*px)[0].id = id; }
                else { px = std::make_unique<P>(papilio::make_optional_unique<obj>(id)); w.addr[id] = px->get(); }
                x.id = id; x.own = true;
            }
            break;
        case CT_TO: if constexpr(!Arr) { int id = fresh(w, true); px.reset(); drop(w, x); px = std::make_unique<P>(P::pointer_to(*w.addr[id])); x.id = id; } break;
        case CT_IND: if constexpr(!Arr) { int id = fresh(w, false); px.reset(); drop(w, x); px = std::make_unique<P>(papilio::independent, w.addr[id]); x.id = id; x.own = true; } break;
        case CT_OBS_OTHER: px.reset(); drop(w, x); px = std::make_unique<P>(static_cast<const P&>(*py)); x.id = y.id; break;
        case DESTROY_OTHER: px.reset(); drop(w, x); px = std::make_unique<P>(std::move(*py)); x.id = y.id; x.own = y.own; y.id = -1; y.own = false; break;
        }
    }
    static std::string check(world& w)
    {
        if(!w.err.empty()) return w.err;
        for(std::size_t i = 0; i < w.addr.size(); ++i)
        {
            if(L.deleted[i] != w.expect[i]) return "object " + std::to_string(i) + " deleted " + std::to_string(L.deleted[i]) + " times, expected " + std::to_string(w.expect[i]);
            if(L.deleted[i] && w.wantdel[i] >= 0 && L.by[i] != w.wantdel[i]) return "object " + std::to_string(i) + " deleted by another deleter than it was handed over with";
        }
        if(!w.p[0] || !w.p[1]) return {};
        for(int k = 0; k < 2; ++k)
        {
            P& p = *w.p[k]; const P& c = p; const mp& m = w.m[k];
            obj* want = m.id < 0 ? nullptr : w.addr[m.id];
            if(p.get() != want || c.get() != want) return "pointer " + std::to_string(k) + " is another one";
            if(p.has_ownership() != m.own) return "pointer " + std::to_string(k) + " ownership";
            if(bool(p) != (want != nullptr) || (p == nullptr) != (want == nullptr) || (nullptr == p) != (want == nullptr) || (p != nullptr) != (want != nullptr)) return "null comparison";
            if constexpr(Arr) { if(want && !w.expect[m.id] && &p[1] != want + 1) return "operator[]"; }
            else { if(want && !w.expect[m.id] && (&*p != want || p.operator->() != want)) return "dereference"; }
        }
        if((*w.p[0] == *w.p[1]) != (w.p[0]->get() == w.p[1]->get())) return "comparison";
        return {};
    }
    static void init(world& w) { L = {}; w.p[0] = std::make_unique<P>(); w.p[1] = std::make_unique<P>(); }
    static std::string finish(world& w)
    {
        for(int k = 0; k < 2; ++k) { drop(w, w.m[k]); w.p[k].reset(); }
        std::string e = check(w);
        for(std::size_t i = 0; i < w.addr.size(); ++i)
        {
            bool ext = std::find(w.ext.begin(), w.ext.end(), int(i)) != w.ext.end();
            if(e.empty() && !ext && L.deleted[i] != 1) e = "object " + std::to_string(i) + " deleted " + std::to_string(L.deleted[i]) + " times at the end";
            if(e.empty() && ext && L.deleted[i] != 0) e = "borrowed object deleted";
            if(L.deleted[i] == 0 && w.addr[i]) C::kill(w.addr[i]);
        }
        return e;
    }
    static std::string key(const world& w)
    {
        std::string k;
        for(int i = 0; i < 2; ++i)
        {
            const mp& m = w.m[i]; const mp& o = w.m[1 - i];
            k += m.id < 0 ? "null" : m.own ? (w.wantdel[m.id] >= 0 ? "ownD" : "own") : w.expect[m.id] ? "dangling" : "observe";
            if(m.id >= 0 && m.id == o.id) k += "=";
            k += " ";
        }
        return k;
    }
    static std::string show(const std::vector<op>& h) { std::string r; for(auto& o : h) r += std::string(o.x ? "q: " : "p: ") + NM[o.k] + "; "; return r; }
    static void explore(vk::S& s)
    {
        const int depth = vk::thorough() ? 4 : 3; // unmerged histories up to this length, then merged to closure
        std::set<std::string> seen; std::deque<std::vector<op>> q; q.push_back({});
        while(!q.empty())
        {
            auto h = q.front(); q.pop_front();
            world pre; init(pre); for(auto& x : h) step(pre, x);
            mp m0 = pre.m[0], m1 = pre.m[1]; finish(pre);
            for(int k = 0; k < NK; ++k)
                for(int x = 0; x < 2; ++x)
                {
                    op o{k, x};
                    { world e; e.m[0] = m0; e.m[1] = m1; if(!enabled(e, o)) continue; }
                    if(!s.step_all()) continue;
                    auto h2 = h; h2.push_back(o);
                    world w; 
                    if(s.mine || int(h2.size()) >= depth || true) s.desc(show(h2));
                    init(w);
                    for(auto& y : h) step(w, y);
                    step(w, o);
                    std::string e = check(w), kk = key(w), fe = finish(w);
                    if(e.empty()) e = fe;
                    if(int(h2.size()) < depth || seen.insert(kk).second) q.push_back(h2);
                    if(!s.mine) continue;
                    s.trans(h2.size()); s.state(s.name + kk); s.sample(show(h2) + " -> " + kk);
                    if(!e.empty()) s.fail(e);
                }
        }
    }
};

int main(int argc, char** argv)
{
    vk::section("single", explorer<cfg<false, false>, false, false>::explore);
    vk::section("single, stateful deleter", explorer<cfg<false, true>, false, true>::explore);
    vk::section("array", explorer<cfg<true, false>, true, false>::explore);
    vk::section("array, stateful deleter", explorer<cfg<true, true>, true, true>::explore);
    return vk::main(argc, argv, "C14");
}
