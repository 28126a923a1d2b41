// C15: format arguments and argument stores: values, ownership and lifetimes
#include <papilio/papilio.hpp>
#include <deque>
#include <memory>
#include <typeindex>
#include "vk.hpp"
#include "ref.hpp"
#include "track.hpp"
using papilio::independent;
template <typename C> using ctx_t = papilio::basic_format_context<papilio::format_iterator_for<C>, C>;

// a tracked user value; Nt: copying and moving cannot fail
template <int Pad, bool Nt, bool Fmt = true> struct user
{
    int v; std::array<unsigned char, Pad> pad;
    void enter() { ++tk::st.live; if(!tk::st.addr.insert(this).second) tk::st.error("value constructed over a live value"); }
    void check() const { if(!tk::st.addr.count(this)) tk::st.error("use of a value that is not alive"); }
    static void pt() { if constexpr(!Nt) tk::point(); }
    user(int x) : v(x) { enter(); }
    user(const user& o) noexcept(Nt) : v(o.v) { o.check(); pt(); enter(); }
    user(user&& o) noexcept(Nt) : v(o.v) { o.check(); pt(); enter(); o.v = -1; }
    user& operator=(const user& o) noexcept { check(); o.check(); v = o.v; return *this; }
    ~user() { v = -2; --tk::st.live; if(!tk::st.addr.erase(this)) tk::st.error("value destroyed that is not alive"); }
    int get() const { check(); return v; }
};
using tiny = user<4, true>; using e24 = user<20, true>; using e28 = user<24, true>; using big = user<60, true>; using thr = user<4, false>; using nofmt = user<4, true, false>; using bignofmt = user<60, false, false>;
namespace papilio
{
template <int P, bool N, typename C> class formatter<user<P, N, true>, C>
{
public:
    template <typename PC> auto parse(PC& c) -> typename PC::iterator { return c.begin(); }
    template <typename FC> auto format(const user<P, N, true>& u, FC& ctx) const
    {
        using t = format_context_traits<FC>;
        t::append(ctx, C('u'));
        for(char d : std::to_string(u.get())) t::append(ctx, C(d));
        return ctx.out();
    }
};
} // namespace papilio

template <typename C> struct H
{
    using str = std::basic_string<C>; using sv = std::basic_string_view<C>; using X = ctx_t<C>;
    using arg = papilio::basic_format_arg<X>; using handle = typename arg::handle; using SC = papilio::utf::basic_string_container<C>;
    using cp = papilio::utf::codepoint;
    static str A(std::string_view s) { return str(s.begin(), s.end()); }
    static std::string B(sv s) { std::string r; for(C c : s) r += char(c); return r; }
    static constexpr int EXT = 5; // tracked values outside
    struct outside
    {
        str s{A("view")}, l{A("a text that is longer than any small buffer")}; SC owner{independent, A("owner")};
        tiny ti{1}; e24 a{2}; e28 b{3}; big bg{4}; thr th{5};
        int arr[3]{1, 2, 3}; std::array<int, 2> ar{4, 5}; std::vector<int> vec{6, 7}; int i = 9; SC view{sv(s)};
    };
    enum cat { none, cbool, ccp, cint, cuint, cll, cull, cflt, cdbl, cld, ctext, cptr, chandle };
    // which typed access yields the value
    enum acc { a_none, a_bool, a_cp, a_int, a_uint, a_ll, a_ull, a_flt, a_dbl, a_ld, a_str, a_ptr, a_tiny, a_e24, a_e28, a_big, a_thr, a_nofmt, a_bnf, a_vec, a_spanci, a_span2, a_ti, A_N };
    struct kind
    {
        std::string name; cat c; acc a; std::string text; bool own; bool heap; bool formattable; bool tracked; int fails;
        std::function<std::unique_ptr<arg>(outside&)> make; // with new
        std::function<void(outside&, arg&)> assign;          // from a temporary argument
    };
    template <typename T> static bool soo() { static const bool r = [] { T x(1); arg a(x); return a.has_ownership(); }(); return r; }
    static std::vector<kind> make_kinds()
    {
        std::vector<kind> v;
        auto add = [&](std::string n, cat c, acc a, std::string t, bool own, bool heap, bool fm, bool tr, auto f, int fails = 0)
        { v.push_back({n, c, a, t, own, heap, fm, tr, fails, [f](outside& o) { return f(o, [](auto&&... x) { return std::make_unique<arg>(std::forward<decltype(x)>(x)...); }); }, [f](outside& o, arg& t) { f(o, [&t](auto&&... x) { t = arg(std::forward<decltype(x)>(x)...); return 0; }); }}); };
#define K(n, c, a, t, own, heap, fm, tr, ...) add(n, c, a, t, own, heap, fm, tr, [](outside& o, auto mk) { (void)o; return mk(__VA_ARGS__); })
        K("nothing", none, a_none, "", true, false, false, false, );
        K("true", cbool, a_bool, "true", true, 0, 1, 0, true);
        K("character", ccp, a_cp, "x", true, 0, 1, 0, C('x'));
        K("code point", ccp, a_cp, "y", true, 0, 1, 0, cp(U'y'));
        K("int", cint, a_int, "-5", true, 0, 1, 0, -5);
        K("short", cint, a_int, "-6", true, 0, 1, 0, short(-6));
        K("unsigned char", cuint, a_uint, "200", true, 0, 1, 0, (unsigned short)(200));
        K("unsigned", cuint, a_uint, "4294967295", true, 0, 1, 0, 4294967295u);
        K("long long", cll, a_ll, "-9223372036854775808", true, 0, 1, 0, -9223372036854775807ll - 1);
        K("unsigned long", cull, a_ull, "18446744073709551615", true, 0, 1, 0, 18446744073709551615ul);
        K("float", cflt, a_flt, "0.5", true, 0, 1, 0, 0.5f);
        K("double", cdbl, a_dbl, "2.25", true, 0, 1, 0, 2.25);
        K("long double", cld, a_ld, "1.75", true, 0, 1, 0, 1.75l);
        K("string_view", ctext, a_str, "view", false, 0, 1, 0, sv(o.s));
        K("const string", ctext, a_str, "view", false, 0, 1, 0, std::as_const(o.s));
        K("pointer to text", ctext, a_str, "view", false, 0, 1, 0, o.s.c_str());
        K("string_ref", ctext, a_str, "view", false, 0, 1, 0, papilio::utf::basic_string_ref<C>(o.s));
        K("container", ctext, a_str, "owner", false, 0, 1, 0, std::as_const(o.owner));
        K("container that borrows", ctext, a_str, "view", false, 0, 1, 0, o.view);
        K("string&&", ctext, a_str, "view", true, 0, 1, 0, str(o.s));
        K("long string&&", ctext, a_str, "a text that is longer than any small buffer", true, 0, 1, 0, str(o.l));
        K("container&&", ctext, a_str, "owner", true, 0, 1, 0, SC(independent, o.owner));
        K("independent, string_view", ctext, a_str, "view", true, 0, 1, 0, independent, sv(o.s));
        K("independent, const string", ctext, a_str, "a text that is longer than any small buffer", true, 0, 1, 0, independent, std::as_const(o.l));
        K("independent, pointer to text", ctext, a_str, "view", true, 0, 1, 0, independent, o.s.c_str());
        K("pointer", cptr, a_ptr, "", true, 0, 1, 0, static_cast<const void*>(&o.i));
        K("int pointer", cptr, a_ptr, "", true, 0, 1, 0, &o.i);
        K("nullptr", cptr, a_ptr, "", true, 0, 1, 0, nullptr);
        K("array", chandle, a_spanci, "[1, 2, 3]", true, 0, 1, 0, o.arr);
        K("std::array", chandle, a_span2, "[4, 5]", true, 0, 1, 0, o.ar);
        K("vector", chandle, a_vec, "[6, 7]", false, 0, 1, 0, o.vec);
        K("independent, vector", chandle, a_vec, "[6, 7]", true, 1, 1, 0, independent, o.vec);
        K("type_info", chandle, a_ti, "", true, 0, 0, 0, typeid(int));
        // an owning argument made of a value that is destroyed right away
#define U(n, T, acc, val, fm) \
        if(soo<T>()) { \
            K(n " (temporary)", chandle, acc, "u" #val, true, 0, fm, 1, T(val)); \
            K("independent, " n, chandle, acc, "u" #val, true, 0, fm, 1, independent, T(val)); \
        } else { \
            K("independent, " n " (temporary)", chandle, acc, "u" #val, true, 1, fm, 1, independent, T(val)); \
        }
        U("tiny", tiny, a_tiny, 11, 1) U("24 bytes", e24, a_e24, 12, 1) U("28 bytes", e28, a_e28, 13, 1) U("big", big, a_big, 14, 1) U("nofmt", nofmt, a_nofmt, 16, 0)
        K("tiny", chandle, a_tiny, "u1", soo<tiny>(), 0, 1, 1, o.ti);
        K("24 bytes", chandle, a_e24, "u2", soo<e24>(), 0, 1, 1, o.a);
        K("28 bytes", chandle, a_e28, "u3", soo<e28>(), 0, 1, 1, o.b);
        K("big", chandle, a_big, "u4", soo<big>(), 0, 1, 1, o.bg);
        K("throwing", chandle, a_thr, "u5", false, 0, 1, 1, std::as_const(o.th));
        K("independent, throwing", chandle, a_thr, "u5", true, 1, 1, 1, independent, o.th);
        K("independent, throwing (temporary)", chandle, a_thr, "u15", true, 1, 1, 1, independent, thr(15));
        K("independent, big nofmt", chandle, a_bnf, "u17", true, 1, 0, 1, independent, bignofmt(17));
        v.push_back({"independent, throwing (copy fails)", chandle, a_thr, "", true, 1, 1, 1, 1,
            [](outside& o) { tk::st.countdown = 0; std::unique_ptr<arg> r; try { r = std::make_unique<arg>(independent, o.th); } catch(const tk::Boom&) { tk::st.countdown = -1; return std::unique_ptr<arg>(); } tk::st.error("no failure"); return r; },
            [](outside& o, arg& t) { tk::st.countdown = 0; try { t = arg(independent, o.th); } catch(const tk::Boom&) { tk::st.countdown = -1; return; } tk::st.error("no failure"); }});
        return v;
    }
    static const std::vector<kind>& kinds() { static const auto v = make_kinds(); return v; }

    static std::string fmt(const arg& a)
    {
        str out; str spec(1, C('}'));
        static const papilio::static_format_args<0, 0, X, C> e; papilio::basic_format_args_ref<X, C> r(e);
        X ctx(std::back_inserter(out), r);
        papilio::basic_format_parse_context<X> pc(spec, r);
        a.format(pc, ctx);
        return B(out);
    }

    template <typename T, typename F> static int probe(const arg& a, F ok)
    {
        try { const auto& v = get<T>(a); return ok(v) ? 1 : -1; }
        catch(const std::bad_variant_access&) { return 0; }
        catch(const std::bad_cast&) { return 0; }
    }
    // the typed access of a kind: 1 yields the value, -1 a wrong value, 0 refused
    static int access(const arg& a, const kind& k, acc as, outside& o)
    {
        const std::string& t = k.text;
        auto u = [&](auto& x) { return "u" + std::to_string(x.get()) == t; };
        switch(as)
        {
        case a_bool: return probe<bool>(a, [](bool b) { return b; });
        case a_cp: { int r = probe<C>(a, [&](cp c) { return t[0] == char(char32_t(c)); }); return r == probe<cp>(a, [&](cp c) { return t[0] == char(char32_t(c)); }) ? r : -1; }
        case a_int: { int r = probe<int>(a, [&](int v) { return std::to_string(v) == t; }); return r == probe<short>(a, [&](int v) { return std::to_string(v) == t; }) && r == probe<signed int>(a, [&](int v) { return std::to_string(v) == t; }) ? r : -1; }
        case a_uint: { int r = probe<unsigned>(a, [&](unsigned v) { return std::to_string(v) == t; }); return r == probe<unsigned short>(a, [&](unsigned v) { return std::to_string(v) == t; }) ? r : -1; }
        case a_ll: { int r = probe<long long>(a, [&](long long v) { return std::to_string(v) == t; }); return r == probe<long>(a, [&](long long v) { return std::to_string(v) == t; }) ? r : -1; }
        case a_ull: return probe<unsigned long long>(a, [&](unsigned long long v) { return std::to_string(v) == t; });
        case a_flt: return probe<float>(a, [](float f) { return f == 0.5f; });
        case a_dbl: return probe<double>(a, [](double f) { return f == 2.25; });
        case a_ld: return probe<long double>(a, [](long double f) { return f == 1.75l; });
        case a_str: { auto f = [&](const SC& s) { return B(s.to_string_view()) == t; }; int r = probe<sv>(a, f); return r == probe<str>(a, f) && r == probe<SC>(a, f) ? r : -1; }
        case a_ptr: return probe<const void*>(a, [&](const void* p) { return p == (k.name == "nullptr" ? nullptr : static_cast<const void*>(&o.i)); });
        case a_tiny: return probe<tiny>(a, u); case a_e24: return probe<e24>(a, u); case a_e28: return probe<e28>(a, u); case a_big: return probe<big>(a, u); case a_thr: return probe<thr>(a, u); case a_nofmt: return probe<nofmt>(a, u); case a_bnf: return probe<bignofmt>(a, u);
        case a_vec: return probe<std::vector<int>>(a, [](const std::vector<int>& x) { return x == std::vector<int>{6, 7}; });
        case a_spanci: return probe<std::span<const int>>(a, [](auto& x) { return x.size() == 3 && x[0] == 1; }) == 1 ? 1 : 0;
        case a_span2: return probe<std::span<const int>>(a, [](auto& x) { return x.size() == 2 && x[0] == 4; }) == 1 ? 1 : 0;
        case a_ti: return probe<std::type_index>(a, [](auto& x) { return x == typeid(int); });
        default: return 0;
        }
    }
    static std::string look(const arg& a, const kind& k, bool own, outside& o)
    {
        auto& v = a.to_variant();
        if(v.index() != std::size_t(k.c)) return "holds alternative " + std::to_string(v.index()) + ", not that of " + k.name;
        bool h = false;
        switch(k.c) { case none: h = a.template holds<std::monostate>(); break; case cbool: h = a.template holds<bool>(); break; case ccp: h = a.template holds<cp>(); break; case cint: h = a.template holds<int>(); break; case cuint: h = a.template holds<unsigned>(); break; case cll: h = a.template holds<long long>(); break; case cull: h = a.template holds<unsigned long long>(); break; case cflt: h = a.template holds<float>(); break; case cdbl: h = a.template holds<double>(); break; case cld: h = a.template holds<long double>(); break; case ctext: h = a.template holds<SC>(); break; case cptr: h = a.template holds<const void*>(); break; case chandle: h = a.template holds<handle>(); }
        if(!h) return "holds<>";
        if(a.empty() != (k.c == none) || bool(a) == (k.c == none)) return "empty()";
        if(a.has_ownership() != own) return own ? "does not own its value" : "owns its value";
        if(a.is_formattable() != k.formattable) return "is_formattable()";
        if(k.a != a_none && access(a, k, k.a, o) != 1) return "get<>: another value than " + k.name;
        if(k.formattable && k.c != cptr) { std::string t = fmt(a); if(t != k.text) return "is rendered " + t + ", not " + k.text; }
        return {};
    }
    // ---- histories
    struct ms { int k = 0; bool own = true; int src = -1; int oid = 0; bool valid = true; };
    template <int N> struct hist
    {
        struct model { ms m[N]; int fresh = 1; };
        struct world { outside o; std::unique_ptr<arg> p[N]; std::string err; };
        struct op { std::string name; bool self, other; std::function<void(world&, int, int)> real; std::function<bool(model&, int, int)> mod; };
        static const kind& K_(const ms& a) { return kinds()[std::size_t(a.k)]; }
        static void touched(model& w, int t) { for(auto& a : w.m) if(a.valid && !a.own && a.src == t) a.valid = false; }
        static void fix(model& w)
        {
            for(auto& a : w.m) if(a.valid && !a.own && a.oid) { bool ok = false; for(auto& b : w.m) ok = ok || (b.own && b.oid == a.oid); if(!ok) a.valid = false; }
            for(auto& a : w.m) if(!a.valid) { a.src = -1; }
        }
        static void fresh(model& w, int t, int k) { touched(w, t); w.m[t] = {k, kinds()[std::size_t(k)].own, -1, kinds()[std::size_t(k)].heap ? w.fresh++ : 0, true}; }
        static ms copied(const model& w, int t, int o)
        {
            ms r = w.m[o];
            if(K_(r).c == ctext) { if(r.own) { r.own = false; r.src = o; } else if(r.src == t) r.valid = false; }
            else if(r.oid) r.own = false;
            return r;
        }
        static std::vector<op> make_ops()
        {
            std::vector<op> v;
            for(int k = 0; k < int(kinds().size()); ++k)
            {
                const bool f = kinds()[std::size_t(k)].fails;
                v.push_back({"{" + kinds()[std::size_t(k)].name + "}", f, 0, [k, f](world& w, int t, int) { if(f) { kinds()[std::size_t(k)].make(w.o); return; } w.p[t].reset(); w.p[t] = kinds()[std::size_t(k)].make(w.o); }, [k, f](model& w, int t, int) { if(!f) fresh(w, t, k); return true; }});
                v.push_back({"= {" + kinds()[std::size_t(k)].name + "}", f, 0, [k](world& w, int t, int) { kinds()[std::size_t(k)].assign(w.o, *w.p[t]); }, [k, f](model& w, int t, int) { if(!f) fresh(w, t, k); return true; }});
            }
            auto add = [&](std::string n, bool s, bool o, auto r, auto m) { v.push_back({n, s, o, r, m}); };
            auto cpy = [](model& w, int t, int o) { ms r = copied(w, t, o); touched(w, t); w.m[t] = r; return true; };
            add("{other}", 0, 1, [](world& w, int t, int o) { auto n = std::make_unique<arg>(std::as_const(*w.p[o])); w.p[t] = std::move(n); }, cpy);
            auto mov = [](model& w, int t, int o) { ms r = w.m[o]; touched(w, t); touched(w, o); if(!w.m[o].valid) r.valid = false; w.m[o] = {0, true, -1, 0, true}; w.m[t] = r; return true; };
            add("{move(other)}", 0, 1, [](world& w, int t, int o) { auto n = std::make_unique<arg>(std::move(*w.p[o])); w.p[t] = std::move(n); }, mov);
            add("= other", 0, 1, [](world& w, int t, int o) { *w.p[t] = std::as_const(*w.p[o]); }, [cpy](model& w, int t, int o)
            {
                if(K_(w.m[t]).c == ctext && K_(w.m[o]).c == ctext)
                {
                    ms r = w.m[o];
                    if(!w.m[t].valid) return false; // the target may refer to what is gone
                    if(!r.own && r.src == t) r.own = true, r.src = -1;
                    touched(w, t); w.m[t] = r; return true;
                }
                return cpy(w, t, o);
            });
            add("= move(other)", 0, 1, [](world& w, int t, int o) { *w.p[t] = std::move(*w.p[o]); }, mov);
            add("swap(other)", 1, 1, [](world& w, int t, int o) { w.p[t]->swap(*w.p[o]); }, [](model& w, int t, int o) { ms a = w.m[t], b = w.m[o]; touched(w, t); touched(w, o); a.valid = w.m[t].valid; b.valid = w.m[o].valid; w.m[t] = b; w.m[o] = a; return true; });
            add("std::swap", 1, 1, [](world& w, int t, int o) { using std::swap; swap(*w.p[t], *w.p[o]); }, [](model& w, int t, int o) { if(t > o) return false; ms a = w.m[t], b = w.m[o]; touched(w, t); touched(w, o); a.valid = w.m[t].valid; b.valid = w.m[o].valid; w.m[t] = b; w.m[o] = a; return true; });
            add("= itself", 1, 0, [](world& w, int t, int) { auto& x = *w.p[t]; x = std::as_const(x); }, [](model&, int, int) { return true; });
            add("swap(itself)", 1, 0, [](world& w, int t, int) { auto& x = *w.p[t]; x.swap(x); }, [](model& w, int t, int) { touched(w, t); return w.m[t].valid; });
            add("= move(itself); = 3", 1, 0, [](world& w, int t, int) { auto& x = *w.p[t]; x = std::move(x); x = arg(-5); }, [](model& w, int t, int) { fresh(w, t, 4); return true; });
            add("= its own copy", 1, 0, [](world& w, int t, int) { arg c(std::as_const(*w.p[t])); *w.p[t] = c; }, [](model& w, int t, int) { ms& a = w.m[t]; return !(a.own && (a.oid || K_(a).c == ctext)); });
            add("= move(other), other = {big}", 0, 1, [](world& w, int t, int o) { *w.p[t] = std::move(*w.p[o]); *w.p[o] = arg(w.o.bg); }, [mov](model& w, int t, int o) { if(!mov(w, t, o)) return false; int k = 0; for(auto& x : kinds()) { if(x.name == "big") break; ++k; } fresh(w, o, k); return true; });
            // the handle inside
            auto hk = [](const model& w, int t, int o) { return K_(w.m[t]).c == chandle && K_(w.m[o]).c == chandle; };
            add("handle = other's handle", 0, 1, [](world& w, int t, int o) { std::get<handle>(w.p[t]->to_variant()) = std::get<handle>(std::as_const(*w.p[o]).to_variant()); }, [hk, cpy](model& w, int t, int o) { return hk(w, t, o) && cpy(w, t, o); });
            add("handle = move(other's handle)", 0, 1, [](world& w, int t, int o) { std::get<handle>(w.p[t]->to_variant()) = std::move(std::get<handle>(w.p[o]->to_variant())); }, [hk](model& w, int t, int o) { if(!hk(w, t, o)) return false; ms r = w.m[o]; w.m[o].valid = false; w.m[o].oid = 0; w.m[t] = r; return true; });
            add("{in place, other's handle}", 0, 1, [](world& w, int t, int o) { auto n = std::make_unique<arg>(std::in_place_type<handle>, std::get<handle>(w.p[o]->to_variant())); w.p[t] = std::move(n); }, [cpy](model& w, int t, int o) { return K_(w.m[o]).c == chandle && cpy(w, t, o); });
            return v;
        }
        static const std::vector<op>& ops() { static const auto v = make_ops(); return v; }
        struct step { short k, t, o; };
        static bool apply(model& w, step s)
        {
            const op& p = ops()[std::size_t(s.k)];
            if(p.self && !w.m[s.t].valid) return false;
            if(p.other && !w.m[s.o].valid) return false;
            if(!p.mod(w, s.t, s.o)) return false;
            fix(w);
            return true;
        }
        static std::string key(const model& m)
        {
            std::string r; std::map<int, int> ids;
            for(auto& a : m.m)
            {
                if(!a.valid) { r += "?" + std::to_string(K_(a).c) + (a.own && a.oid ? "+" : "") + ";"; continue; }
                int id = 0; if(a.oid) { if(!ids.count(a.oid)) { int n = int(ids.size()) + 1; ids[a.oid] = n; } id = ids[a.oid]; }
                r += std::to_string(a.k) + (a.own ? "o" : "b") + std::to_string(a.src) + "#" + std::to_string(id) + ";";
            }
            return r;
        }
        static std::string show(const std::vector<step>& h) { std::string r; for(auto& s : h) { r += char('x' + s.t); r += " " + ops()[std::size_t(s.k)].name; if(ops()[std::size_t(s.k)].other && N > 2) { r += " ["; r += char('x' + s.o); r += "]"; } r += "; "; } return r; }
        static std::string run(const std::vector<step>& h)
        {
            for(auto& k : kinds()) (void)k;
            tk::st.reset();
            std::string e;
            {
                world w; for(auto& p : w.p) p = std::make_unique<arg>();
                model m;
                for(auto& s : h) { apply(m, s); ops()[std::size_t(s.k)].real(w, s.t, s.o); if(!tk::st.bad.empty()) return tk::st.bad; }
                long want = EXT; bool all = true;
                for(int t = 0; t < N; ++t)
                {
                    auto& a = m.m[t];
                    all = all && a.valid;
                    if(!a.valid) continue;
                    if(a.own && K_(a).tracked) ++want;
                    e = look(*w.p[t], K_(a), a.own, w.o);
                    if(!e.empty()) return std::string(1, char('x' + t)) + " " + e;
                    if(!tk::st.bad.empty()) return std::string(1, char('x' + t)) + ": " + tk::st.bad;
                }
                if(all && tk::st.live != want) return std::to_string(tk::st.live - EXT) + " values are kept alive, expected " + std::to_string(want - EXT);
            }
            if(!tk::st.bad.empty()) return tk::st.bad;
            if(tk::st.live) return std::to_string(tk::st.live) + " values are never destroyed";
            return {};
        }
        static void explore(vk::S& s, std::size_t plain, std::size_t max, bool coarse)
        {
            kinds();
            std::set<std::string> seen; std::deque<std::pair<std::vector<step>, model>> q;
            q.push_back({{}, model{}});
            while(!q.empty())
            {
                auto [h, m] = q.front(); q.pop_front();
                for(short k = 0; k < short(ops().size()); ++k) for(short t = 0; t < N; ++t) for(short o = 0; o < N; ++o)
                {
                    const op& p = ops()[std::size_t(k)];
                    if(o == t) { if(p.other) continue; if(N > 1 && t != o) continue; }
                    else if(!p.other) continue;
                    model n = m;
                    if(coarse && k < short(2 * kinds().size()) && (k & 1 || !interesting(k / 2))) continue;
                    if(!apply(n, {k, t, o})) continue;
                    auto h2 = h; h2.push_back({k, t, o});
                    if(h2.size() < max && (h2.size() < plain || seen.insert(key(n)).second)) q.push_back({h2, n});
                    if(!s.step_all() || !s.mine) continue;
                    s.desc(show(h2)); s.trans(h2.size()); s.state(s.name + key(n)); s.sample(show(h2) + " -> " + key(n));
                    std::string e = run(h2);
                    if(!e.empty()) s.fail(e);
                }
            }
        }
        static bool interesting(int k) { static const std::set<std::string> n{"nothing", "double", "string_view", "string&&", "long string&&", "independent, big (temporary)", "independent, throwing", "big", "tiny", "independent, vector"}; return n.count(kinds()[std::size_t(k)].name); }
    };
    // every typed access of every kind
    static void accesses(vk::S& s)
    {
        for(auto& k : kinds()) for(int as = a_bool; as < A_N; ++as)
        {
            if(k.fails) continue;
            if(!s.next()) continue;
            s.desc("access " + std::to_string(as) + " of " + k.name); s.state(k.name + std::to_string(as)); s.trans(2);
            tk::st.reset();
            outside o; auto p = k.make(o);
            int want = k.a == as ? 1 : 0;
            s.eq("access", std::to_string(access(*p, k, acc(as), o)), std::to_string(want));
            arg c(std::as_const(*p)); s.eq("access of a copy", std::to_string(access(c, k, acc(as), o)), std::to_string(want));
            arg m(std::move(*p)); s.eq("access of what was moved", std::to_string(access(m, k, acc(as), o)), std::to_string(want)); s.expect(p->empty() && !p->is_formattable() && p->has_ownership(), "moved-from argument");
            if(k.c == chandle)
            {
                const handle& h = std::get<handle>(m.to_variant());
                const std::type_info& ti = h.type();
                const std::type_info* w = k.a == a_tiny ? &typeid(tiny) : k.a == a_e24 ? &typeid(e24) : k.a == a_e28 ? &typeid(e28) : k.a == a_big ? &typeid(big) : k.a == a_thr ? &typeid(thr) : k.a == a_nofmt ? &typeid(nofmt) : k.a == a_bnf ? &typeid(bignofmt) : k.a == a_vec ? &typeid(std::vector<int>) : k.a == a_ti ? &typeid(std::type_index) : &typeid(std::span<const int>);
                s.expect(ti == *w, "type() of the handle");
                s.expect((handle_cast<tiny>(&h) != nullptr) == (k.a == a_tiny) && (handle_cast<big>(&h) != nullptr) == (k.a == a_big), "handle_cast of a pointer");
            }
            if(!k.formattable) { bool t = false; try { (void)fmt(m); } catch(const papilio::format_error&) { t = true; } s.expect(t, "rendering what cannot be rendered"); }
            s.expect(tk::st.bad.empty(), tk::st.bad);
        }
    }
    // ---- stores
    using dyn = papilio::basic_dynamic_format_args<X, C>;
    struct shown { std::vector<std::string> idx; std::map<std::string, std::string> named; };
    template <typename Store> static void check_store(vk::S& s, const Store& st, const shown& w, const char* what)
    {
        using IV = papilio::basic_indexing_value<C>;
        static const std::vector<std::string> names{"", "a", "b", "ab", "n1", "z", "A"};
        s.expect(st.indexed_size() == w.idx.size() && st.named_size() == w.named.size(), what, ": sizes");
        for(std::size_t i = 0; i < w.idx.size() + 2; ++i)
        {
            bool in = i < w.idx.size();
            s.expect(st.contains(i) == in && st.contains(IV(papilio::ssize_t(i))) == in, what, ": contains ", i);
            if(in) { s.eq("indexed argument", fmt(st.get(i)), w.idx[i]); s.expect(&st.get(i) == &st[IV(papilio::ssize_t(i))], "operator[]"); }
            else { int t = 0; try { (void)st.get(i); } catch(const std::out_of_range&) { ++t; } try { (void)st[IV(papilio::ssize_t(i))]; } catch(const std::out_of_range&) { ++t; } s.expect(t == 2, what, ": absent index ", i); }
        }
        for(papilio::ssize_t i : {papilio::ssize_t(-1), papilio::ssize_t(-100)}) { bool t = false; s.expect(!st.contains(IV(i)), "negative index"); try { (void)st[IV(i)]; } catch(const std::out_of_range&) { t = true; } s.expect(t, what, ": negative index"); }
        { bool t = false; IV r(papilio::index_range(0, 1)); s.expect(!st.contains(r), "contains range"); try { (void)st[r]; } catch(const std::invalid_argument&) { t = true; } s.expect(t, what, ": range as index"); }
        for(auto& n : names)
        {
            str k = A(n); auto it = w.named.find(n); bool in = it != w.named.end(); IV iv{SC(sv(k))};
            s.expect(st.contains(sv(k)) == in && st.contains(k) == in && st.contains(k.c_str()) == in && st.contains(iv) == in, what, ": contains \"", n, "\"");
            if(in) { s.eq("named argument", fmt(st.get(sv(k))), it->second); s.expect(&st.get(k) == &st.get(sv(k)) && &st.get(k.c_str()) == &st.get(sv(k)) && &st[iv] == &st.get(sv(k)), "named access"); }
            else { int t = 0; try { (void)st.get(sv(k)); } catch(const std::out_of_range&) { ++t; } try { (void)st[iv]; } catch(const std::out_of_range&) { ++t; } s.expect(t == 2, what, ": absent name \"", n, "\""); }
        }
    }
    static void dynamic(vk::S& s)
    {
        struct W { outside o; std::unique_ptr<dyn> d = std::make_unique<dyn>(); str nm[3]{A("a"), A("b"), A("ab")}; };
        struct dop { std::string name; std::function<void(W&)> real; std::function<bool(shown&)> mod; };
        using papilio::arg;
        static const std::vector<dop> ops = []
        {
            std::vector<dop> v;
            auto idx = [&](std::string n, std::string t, auto r) { v.push_back({n, r, [t](shown& m) { m.idx.push_back(t); return true; }}); };
            auto nam = [&](std::string n, std::string k, std::string t, auto r) { v.push_back({n, r, [k, t](shown& m) { return m.named.emplace(k, t).second; }}); };
            idx("emplace(1)", "1", [](W& w) { w.d->emplace(1); });
            idx("emplace(string&&)", "view", [](W& w) { w.d->emplace(str(w.o.s)); });
            idx("emplace(string&)", "view", [](W& w) { w.d->emplace(w.o.s); });
            idx("emplace(tiny&&)", "u21", [](W& w) { w.d->emplace(tiny(21)); });
            idx("emplace(big&)", "u4", [](W& w) { w.d->emplace(w.o.bg); });
            idx("emplace(argument owning a big value)", "u22", [](W& w) { w.d->emplace(H::arg(independent, big(22))); });
            nam("emplace(a: long string&&)", "a", "a text that is longer than any small buffer", [](W& w) { w.d->emplace(arg(sv(w.nm[0]), str(w.o.l))); });
            nam("emplace(b: 2)", "b", "2", [](W& w) { int v = 2; auto a = arg(sv(w.nm[1]), v); w.d->emplace(a); });
            nam("emplace(ab: thr&)", "ab", "u5", [](W& w) { w.d->emplace(arg(w.nm[2].c_str(), w.o.th)); });
            nam("emplace(n1: tiny, name of a temporary)", "n1", "u23", [](W& w) { str n = A("n1"); w.d->emplace(arg(sv(n), tiny(23))); });
            v.push_back({"append(7, z: 8, string&&)", [](W& w) { w.d->append(7, arg(A("z").c_str(), 8), str(w.o.s)); }, [](shown& m) { m.idx.push_back("7"); m.idx.push_back("view"); return m.named.emplace("z", "8").second; }});
            v.push_back({"moved to another store", [](W& w) { auto n = std::make_unique<dyn>(std::move(*w.d)); w.d = std::move(n); }, [](shown&) { return true; }});
            v.push_back({"clear()", [](W& w) { w.d->clear(); }, [](shown& m) { m = {}; return true; }});
            return v;
        }();
        const unsigned len = vk::thorough() ? 5 : 4;
        auto one = [&](const std::vector<int>& ix)
        {
            std::string d; for(int i : ix) d += ops[std::size_t(i)].name + "; ";
            shown m; for(int i : ix) if(!ops[std::size_t(i)].mod(m)) return false;
            s.desc(d); s.trans(ix.size());
            { std::string k; for(auto& x : m.idx) k += x + ","; for(auto& x : m.named) k += x.first + "=" + x.second + ","; s.state(k); s.sample(d + "-> " + k); }
            tk::st.reset();
            {
                W w; for(int i : ix) ops[std::size_t(i)].real(w);
                check_store(s, *w.d, m, "store");
                s.expect(w.d->indexed().size() == m.idx.size() && w.d->named().size() == m.named.size(), "indexed() and named()");
                papilio::basic_format_args_ref<X, C> r(*w.d), r2(r); check_store(s, r2, m, "reference to the store");
            }
            s.expect(tk::st.bad.empty(), tk::st.bad); s.expect(!tk::st.live, "values are never destroyed");
            return true;
        };
        if(s.enter(0, vk::S::owner(0))) one({});
        vk::token_tree(s, unsigned(ops.size()), len, 2, [&](const std::vector<int>& ix, bool run)
        {
            shown m; for(int i : ix) if(!ops[std::size_t(i)].mod(m)) return false;
            return run ? one(ix) : true;
        });
    }
    // growth past the inline capacity, with every prefix moved
    static void growth(vk::S& s)
    {
        using papilio::arg;
        const int L = vk::thorough() ? 20 : 14;
        for(int n = 0; n <= L; ++n) for(int mv = -1; mv <= n; ++mv) for(int kind = 0; kind < 5; ++kind) for(int again = 0; again < 2; ++again)
        {
            if(!s.next()) continue;
            s.desc(std::to_string(n) + " arguments of kind " + std::to_string(kind) + ", moved after " + std::to_string(mv) + (again ? ", cleared and filled again" : "")); s.trans(std::size_t(n)); s.state(s.name + std::to_string(n) + "," + std::to_string(mv) + "," + std::to_string(kind));
            tk::st.reset();
            {
                outside o; auto d = std::make_unique<dyn>(); shown m;
                for(int pass = 0; pass <= again; ++pass)
                {
                    if(pass) { d->clear(); m = {}; }
                    for(int i = 0; i <= n; ++i)
                    {
                        if(i == mv) { auto x = std::make_unique<dyn>(std::move(*d)); d = std::move(x); }
                        if(i == n) break;
                        int k = kind < 4 ? kind : i % 4;
                        if(k == 0) { d->emplace(A(std::to_string(i))); m.idx.push_back(std::to_string(i)); }
                        if(k == 1) { d->emplace(H::arg(independent, big(i))); m.idx.push_back("u" + std::to_string(i)); }
                        if(k == 2) { d->emplace(tiny(i)); m.idx.push_back("u" + std::to_string(i)); }
                        if(k == 3) { d->emplace(A("a text that is longer than any small buffer") + C('a' + i)); m.idx.push_back("a text that is longer than any small buffer" + std::string(1, char('a' + i))); }
                        check_store(s, *d, m, "store");
                    }
                    check_store(s, *d, m, "store at the end");
                }
            }
            s.expect(tk::st.bad.empty(), tk::st.bad); s.expect(!tk::st.live, "values are never destroyed");
        }
    }
    // static stores: bit i of P: argument i is named; names permuted at run time; lvalue, rvalue and const named arguments
    template <unsigned P, std::size_t... I> static void statics_of(vk::S& s, std::index_sequence<I...>)
    {
        constexpr std::size_t L = sizeof...(I);
        static const std::vector<std::string> names{"b", "a", "ab", "z"};
        std::vector<int> perm{0, 1, 2, 3};
        do
        {
            for(int form = 0; form < 3; ++form)
            {
                if(!s.next()) continue;
                std::string d = "make_format_args(";
                shown m; int np = 0; std::array<std::string, L + 1> nm, val; 
                for(std::size_t i = 0; i < L; ++i)
                {
                    val[i] = i % 2 ? "u" + std::to_string(30 + i) : "text " + std::to_string(i) + " that is longer than any small buffer";
                    if(P >> i & 1) { nm[i] = names[std::size_t(perm[std::size_t(np++)])]; m.named[nm[i]] = val[i]; d += nm[i] + ": "; } else m.idx.push_back(val[i]);
                    d += val[i] + ", ";
                }
                d += form == 0 ? ") temporaries" : form == 1 ? ") variables" : ") constants";
                s.desc(d); s.trans(L); s.state(s.name + d); s.sample(d);
                tk::st.reset();
                {
                    std::array<str, L + 1> n, v; for(std::size_t i = 0; i < L; ++i) { n[i] = A(nm[i]); v[i] = A(val[i]); }
                    auto val_of = [&]<std::size_t J>(std::integral_constant<std::size_t, J>) { if constexpr(J % 2) return tiny(30 + int(J)); else return str(v[J]); };
                    if(form == 0)
                    {
                        auto tup = std::make_tuple(val_of(std::integral_constant<std::size_t, I>{})...);
                        auto tmp = [&]<std::size_t J>(std::integral_constant<std::size_t, J>) -> decltype(auto) { if constexpr(P >> J & 1) return papilio::arg(sv(n[J]), std::move(std::get<J>(tup))); else return std::move(std::get<J>(tup)); };
                        auto st = papilio::make_format_args<X>(tmp(std::integral_constant<std::size_t, I>{})...); check_store(s, st, m, "store");
                    }
                    else
                    {
                        auto tup = std::make_tuple(val_of(std::integral_constant<std::size_t, I>{})...);
                        auto named = std::make_tuple([&]<std::size_t J>(std::integral_constant<std::size_t, J>) { if constexpr(P >> J & 1) return papilio::arg(sv(n[J]), std::get<J>(tup)); else return 0; }(std::integral_constant<std::size_t, I>{})...);
                        auto ref_of = [&]<std::size_t J>(std::integral_constant<std::size_t, J>) -> auto& { if constexpr(P >> J & 1) return std::get<J>(named); else return std::get<J>(tup); };
                        if(form == 1) { auto st = papilio::make_format_args<X>(ref_of(std::integral_constant<std::size_t, I>{})...); check_store(s, st, m, "store"); }
                        else { const auto st = papilio::make_format_args<X>(std::as_const(ref_of(std::integral_constant<std::size_t, I>{}))...); check_store(s, st, m, "store"); papilio::basic_format_args_ref<X, C> r(st); check_store(s, r, m, "reference"); }
                        // the variables are still there
                        auto same = [&]<std::size_t J>(std::integral_constant<std::size_t, J>) { if constexpr(J % 2) return std::get<J>(tup).get() == 30 + int(J); else return std::get<J>(tup) == v[J]; };
                        s.expect((same(std::integral_constant<std::size_t, I>{}) && ...), "the caller's variables were changed");
                    }
                }
                s.expect(tk::st.bad.empty(), tk::st.bad); s.expect(!tk::st.live, "values are never destroyed");
            }
        } while(std::next_permutation(perm.begin(), perm.end()));
    }
    template <std::size_t L, std::size_t... P> static void statics_len(vk::S& s, std::index_sequence<P...>) { (statics_of<unsigned(P)>(s, std::make_index_sequence<L>{}), ...); }
    static void statics(vk::S& s)
    {
        statics_len<0>(s, std::make_index_sequence<1>{}); statics_len<1>(s, std::make_index_sequence<2>{}); statics_len<2>(s, std::make_index_sequence<4>{}); statics_len<3>(s, std::make_index_sequence<8>{}); statics_len<4>(s, std::make_index_sequence<16>{});
    }
};
#ifndef CH
#define CH char
#endif
int main(int argc, char** argv)
{
    using T = H<CH>;
    if(vk::part(argc, argv) == "stores" || vk::part(argc, argv) == "wide stores")
    {
        vk::section("static stores", T::statics);
        vk::section("dynamic stores", T::dynamic);
        vk::section("growth", T::growth);
        return vk::main(argc, argv, "C15");
    }
    vk::section("access", T::accesses);
    vk::section("one argument", [](vk::S& s) { T::hist<1>::explore(s, 1, vk::thorough() ? 4 : 3, false); });
    vk::section("two arguments", [](vk::S& s) { T::hist<2>::explore(s, 1, vk::thorough() ? 4 : 3, false); });
    vk::section("two arguments, deep", [](vk::S& s) { T::hist<2>::explore(s, vk::thorough() ? 3 : 2, vk::thorough() ? 6 : 4, true); });
    vk::section("three arguments", [](vk::S& s) { T::hist<3>::explore(s, 1, vk::thorough() ? 5 : 3, true); });
    return vk::main(argc, argv, "C15");
}
