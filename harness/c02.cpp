// C02: a template is its literals and its selected arguments, in order
#include "world.hpp"
#ifndef CH
#define CH char
#endif
using C = CH;
using str = std::basic_string<C>;
using sv = std::basic_string_view<C>;

struct args // one argument list in every form of supply
{
    int p0 = 7, p1 = 4; str p2 = W<C>(U"a\u00e9\u6f22x"); int p3 = 2; double p4 = 2.5; int p5 = 6; long long p6 = 1; obj<C> p7{W<C>(U"ob")}; bool p8 = true; unsigned p9 = 9; C p10 = C('z'); str p11 = W<C>(U"last");
    std::vector<int> nv{1, 2, 3}; int na = 2; str nx = W<C>(U"sx"), nu = W<C>(U"uni"), nl = W<C>(U"low"); std::map<str, int, std::less<>> nm{{W<C>(U"k"), 7}, {W<C>(U"\u00e9 }"), 8}};
    str k_v = W<C>(U"v"), k_a = W<C>(U"a"), k_x = W<C>(U"x"), k_u = W<C>(U"\u00e9t\u00e9"), k_l = W<C>(U"A_b9"), k_m = W<C>(U"m"), k_a2 = W<C>(U"aa"), k_o = W<C>(U"o");
    std::vector<ref::val> pos; std::map<ref::u32, ref::val> named;
    papilio::basic_dynamic_format_args<ctx_t<C>, C> dyn, dyn2;
    template <typename F> decltype(auto) with(F f)
    {
        return f(p0, p1, p2, p3, papilio::arg(sv(k_v), nv), p4, p5, papilio::arg(sv(k_a), na), papilio::arg(sv(k_x), nx), p6, p7, p8, papilio::arg(sv(k_u), nu), p9, papilio::arg(sv(k_l), nl), papilio::arg(sv(k_m), nm), p10, p11, papilio::arg(sv(k_a2), p5), papilio::arg(sv(k_o), p7));
    }
    args()
    {
        using ref::val; auto S = [](const char32_t* s) { return val::ofs(s); };
        val o; o.k = val::OBJ; o.s = U"ob";
        pos = {val::of(7), val::of(4), S(U"a\u00e9\u6f22x"), val::of(2), val::ofd(2.5), val::of(6), val::of(1), o, val::ofb(true), val::of(9), val::ofc('z'), S(U"last")};
        val m; m.k = val::MAPS; m.ms = {{U"k", val::of(7)}, {U"\u00e9 }", val::of(8)}};
        named = {{U"v", val::ofv(val::VEC, {val::of(1), val::of(2), val::of(3)})}, {U"a", val::of(2)}, {U"x", S(U"sx")}, {U"\u00e9t\u00e9", S(U"uni")}, {U"A_b9", S(U"low")}, {U"m", m}, {U"aa", val::of(6)}, {U"o", o}};
        with([this](auto&&... a) { (dyn.emplace(std::forward<decltype(a)>(a)), ...); });
        // other order: named ones last to first, then the positional ones
        dyn2.emplace(papilio::arg(sv(k_o), p7)); dyn2.emplace(papilio::arg(sv(k_a2), p5)); dyn2.emplace(papilio::arg(sv(k_m), nm)); dyn2.emplace(papilio::arg(sv(k_l), nl)); dyn2.emplace(papilio::arg(sv(k_u), nu)); dyn2.emplace(papilio::arg(sv(k_x), nx)); dyn2.emplace(papilio::arg(sv(k_a), na)); dyn2.emplace(papilio::arg(sv(k_v), nv));
        dyn2.append(p0, p1); dyn2.append(p2); dyn2.append(p3, p4, p5, p6, p7, p8, p9, p10, p11);
    }
};
static args& A() { static args a; return a; }

static ref::outcome check(vk::S& s, ref::u32v t, bool run, bool call = true)
{
    auto o = ref::run<C>(t, A().pos, A().named);
    if(!run) return o;
    auto enc = W<C>(t);
    s.desc(bytes<C>(enc));
    exact<C> e(enc);
    auto r = attempt<C>([&] { return vfmt<C>(e.view(), A().dyn); });
    judge<C>(s, "dynamic store", r, o, true);
    auto r2 = attempt<C>([&] { return vfmt<C>(e.view(), A().dyn2); });
    judge<C>(s, "dynamic store, other order", r2, o, true);
    static auto& st = *new auto(A().with([](auto&&... a) { return papilio::make_format_args<ctx_t<C>>(std::forward<decltype(a)>(a)...); }));
    auto r3 = attempt<C>([&] { return vfmt<C>(e.view(), st); });
    judge<C>(s, "static store", r3, o, true);
    if(call)
    {
        auto r4 = attempt<C>([&] { return A().with([&](auto&&... a) { return vfmt<C>(e.view(), papilio::make_format_args<ctx_t<C>>(std::forward<decltype(a)>(a)...)); }); });
        judge<C>(s, "call arguments", r4, o, true);
    }
    s.trans(4); s.state(vk::hash_str(r.threw ? "E" + r.what : bytes<C>(r.text)));
    s.sample("[" + bytes<C>(enc) + "] -> " + (r.threw ? "exception" : "[" + bytes<C>(r.text) + "]"));
    return o;
}

int main(int argc, char** argv)
{
    static const char32_t* tok[] = {
        U"{}", U"{:}", U"{0}", U"{1:03}", U"{2}", U"{7:q}", U"{a}", U"{x:>5}", U"{\u00e9t\u00e9:.2}", U"{A_b9}", U"{:{}}", U"{0:{}}", U"{:{a}}", U"{:\u6f22^{}}", U"{2:.{}}", U"{4:{}.{}f}", U"{4:{1}.{a}e}", U"{:>{1}.{3}}",
        U"{7.self.x}", U"{7[3]:x}", U"{m['\u00e9 }']}", U"{v[1:][0]}", U"{[2]}", U"{.length}", U"{7['a\\'b'].size:#x}", U"{11[-2:]}", U"{{", U"}}", U"li ", U"\u00e9\u6f22", U"{v}", U"{o:z}", U"{aa}", U"{10}",
    };
    vk::section("field sequences", [&](vk::S& s)
    {
        unsigned deep = (std::is_same_v<C, char> ? 3 : 3) + (vk::thorough() ? 1 : 0);
        vk::token_tree(s, sizeof(tok) / sizeof(*tok), deep, 1, [&](const std::vector<int>& ix, bool run)
        {
            ref::u32 t; for(int i : ix) t += tok[i];
            auto o = check(s, t, run, ix.size() < 3);
            return o.k == o.TEXT || ix.size() < 2;
        });
    });
    // only fields that take positions: deeper
    vk::section("numbering", [&](vk::S& s)
    {
        static const char32_t* t2[] = {U"{}", U"{:{}}", U"{4:{}.{}f}", U"{2}", U"{a}", U"-", U"{$ {} ? {} : {:d}}", U"{$ {a} == {} ? 'y' : {:{}}}", U"{[0]}"};
        vk::token_tree(s, sizeof(t2) / sizeof(*t2), vk::thorough() ? 6 : 5, 2, [&](const std::vector<int>& ix, bool run)
        {
            ref::u32 t; for(int i : ix) t += t2[i];
            auto o = check(s, t, run, false);
            return o.k == o.TEXT;
        });
    });
    // all literal texts, with and without a field around
    vk::section("literals", [&](vk::S& s)
    {
        static const char32_t al[] = U"{} :$'\\\0\n\u00e9\u6f22\U0001F600a";
        unsigned n = sizeof(al) / 4 - 1;
        vk::token_tree(s, n, vk::thorough() ? 6 : 5, 2, [&](const std::vector<int>& ix, bool run)
        {
            ref::u32 t; for(int i : ix) { t += al[i]; if(al[i] == U'{' || al[i] == U'}') t += al[i]; }
            check(s, t, run, false);
            if(run && s.ok() && ix.size() < 5) check(s, U"{a}" + t + U"{}", true, false);
            return true;
        });
    });
    // explicit indices of every length, leading zeros, far out of range
    vk::section("indices", [&](vk::S& s)
    {
        std::vector<ref::u32> ix;
        for(int i = 0; i < 30; ++i) { std::string d = std::to_string(i); ix.push_back(ref::A(d)); ix.push_back(ref::A("0" + d)); ix.push_back(ref::A("000" + d)); }
        for(const char* x : {"255", "256", "4294967295", "4294967296", "4294967297", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551617", "99999999999999999999999999", "-1", "+1", "1a", "1_", "0x1"}) ix.push_back(ref::A(x));
        for(auto& x : ix) for(const char32_t* tail : {U"}", U":}", U":>6}", U"", U":", U".", U"[", U".x}", U"[0]}", U" }"})
            if(s.next()) check(s, U"{" + x + tail, true);
    });
    // every name the grammar permits, and characters it does not permit
    vk::section("names", [&](vk::S& s)
    {
        std::vector<char32_t> cs;
        char32_t lim = vk::thorough() ? 0x10000 : 0x500;
        for(char32_t c = 0; c < lim; ++c) if(c < 0xD800 || c > 0xDFFF) cs.push_back(c);
        for(char32_t c : {0x7ffu, 0x800u, 0x1000u, 0x2028u, 0x3000u, 0x4e2du, 0xd7ffu, 0xe000u, 0xfeffu, 0xfffdu, 0xffffu, 0x10000u, 0x1f600u, 0x10ffffu}) cs.push_back(c);
        for(char32_t c : cs) for(int k = 0; k < 4; ++k)
        {
            if(!s.next()) continue;
            ref::u32 name = k == 0 ? ref::u32(1, c) : k == 1 ? U"n" + ref::u32(1, c) : k == 2 ? ref::u32(1, c) + U"n" : U"n" + ref::u32(1, c) + U"n";
            ref::u32 t = U"<{" + name + U":>4}|{" + name + U"}>";
            s.desc(bytes<C>(W<C>(t)));
            int five = 5; str n = W<C>(name);
            papilio::basic_dynamic_format_args<ctx_t<C>, C> d; d.emplace(papilio::arg(sv(n), five));
            std::map<ref::u32, ref::val> m{{name, ref::val::of(5)}};
            auto o = ref::run<C>(t, {}, m);
            exact<C> e(W<C>(t));
            judge<C>(s, "dynamic", attempt<C>([&] { return vfmt<C>(e.view(), d); }), o);
            judge<C>(s, "static", attempt<C>([&] { return vfmt<C>(e.view(), papilio::make_format_args<ctx_t<C>>(papilio::arg(sv(n), five))); }), o);
            s.trans(2); s.state(bytes<C>(W<C>(t)));
        }
    });
    // many names: lookup in every fill order, absent names between, before and after
    vk::section("name lookup", [&](vk::S& s)
    {
        std::vector<str> nm; for(const char32_t* x : {U"b", U"d", U"bb", U"B", U"_"}) nm.push_back(W<C>(x));
        std::vector<int> v{1, 2, 3, 4, 5}, p{0, 1, 2, 3, 4};
        do
            for(const char32_t* q : {U"a", U"b", U"ba", U"bb", U"bbb", U"c", U"d", U"dd", U"B", U"A", U"_", U"__", U"\u00e9", U"z"})
            {
                if(!s.next()) continue;
                papilio::basic_dynamic_format_args<ctx_t<C>, C> d; std::map<ref::u32, ref::val> m;
                for(int i : p) d.emplace(papilio::arg(sv(nm[i]), v[i]));
                const char32_t* nn[] = {U"b", U"d", U"bb", U"B", U"_"}; for(int i = 0; i < 5; ++i) m[nn[i]] = ref::val::of(i + 1);
                ref::u32 t = U"{" + ref::u32(q) + U"}"; auto e = W<C>(t);
                std::string ord; for(int i : p) ord += std::to_string(i);
                s.desc(bytes<C>(e) + " names supplied in order " + ord);
                auto o = ref::run<C>(t, {}, m);
                judge<C>(s, "dynamic", attempt<C>([&] { return vfmt<C>(e, d); }), o);
                judge<C>(s, "static", attempt<C>([&] { return vfmt<C>(e, papilio::make_format_args<ctx_t<C>>(papilio::arg(sv(nm[p[0]]), v[p[0]]), papilio::arg(sv(nm[p[1]]), v[p[1]]), papilio::arg(sv(nm[p[2]]), v[p[2]]), papilio::arg(sv(nm[p[3]]), v[p[3]]), papilio::arg(sv(nm[p[4]]), v[p[4]]))); }), o);
                s.trans(2);
            }
        while(std::next_permutation(p.begin(), p.end()));
    });
    // k positional arguments, m fields
    vk::section("argument count", [&](vk::S& s)
    {
        for(int k = 0; k <= 14; ++k) for(int m = 0; m <= 15; ++m) for(int mode = 0; mode < 3; ++mode)
        {
            if(!s.next()) continue;
            ref::u32 t; std::vector<ref::val> pos; papilio::basic_dynamic_format_args<ctx_t<C>, C> d;
            for(int i = 0; i < k; ++i) { pos.push_back(ref::val::of(100 + i)); d.emplace(100 + i); }
            for(int i = 0; i < m; ++i) t += mode == 0 ? U"{}," : mode == 1 ? U"{" + ref::A(std::to_string(m - 1 - i)) + U"}," : i % 2 ? U"{" + ref::A(std::to_string(i)) + U"}" : U"{:4}";
            auto e = W<C>(t); s.desc(std::to_string(k) + " arguments: " + bytes<C>(e));
            judge<C>(s, "dynamic", attempt<C>([&] { return vfmt<C>(e, d); }), ref::run<C>(t, pos, {}));
            s.trans();
        }
    });
    return vk::main(argc, argv, "C02");
}
