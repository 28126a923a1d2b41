// C03: a conditional field renders exactly the first branch whose test holds
#include "world.hpp"
#include <deque>
#ifndef CH
#define CH char
#endif
using C = CH;
using str = std::basic_string<C>;
using sv = std::basic_string_view<C>;

struct args
{
    int i0 = 0, i1 = 1, im = -1; bool t = true, f = false; C c = C('a'); str s0, s1 = W<C>(U"a"), s2 = W<C>(U"b\u00e9\u6f22"); double d = 2.5, d0 = 0.0; float fl = -0.5f; unsigned long long u = 10; long long mn = std::numeric_limits<long long>::min(), mx = std::numeric_limits<long long>::max();
    obj<C> o{W<C>(U"ob")}; std::vector<int> v{0, 5}; double big = 1e300; unsigned int ui = 4294967295u; signed char sc = -1; double inf = std::numeric_limits<double>::infinity(), nan = std::numeric_limits<double>::quiet_NaN(); void* ptr = nullptr; str sa = W<C>(U"10");
    std::vector<std::pair<const char32_t*, ref::val>> ref_named; std::map<ref::u32, ref::val> named; std::vector<ref::val> pos;
    std::deque<str> keys;
    papilio::basic_dynamic_format_args<ctx_t<C>, C> dyn;
    template <typename T> void add(const char32_t* k, T& x, ref::val r) { keys.push_back(W<C>(k)); dyn.emplace(papilio::arg(sv(keys.back()), x)); named[k] = r; }
    args()
    {
        using ref::val;
        for(int* x : {&i1, &i0, &i1, &im}) { dyn.emplace(*x); pos.push_back(val::of(*x)); }
        dyn.emplace(s2); pos.push_back(val::ofs(U"b\u00e9\u6f22")); dyn.emplace(i1); pos.push_back(val::of(1)); dyn.emplace(i0); pos.push_back(val::of(0));
        for(int i = 0; i < 8; ++i) { dyn.emplace(i1); pos.push_back(val::of(1)); }
        add(U"z", i0, val::of(0)); add(U"one", i1, val::of(1)); add(U"im", im, val::of(-1)); add(U"t", t, val::ofb(true)); add(U"f", f, val::ofb(false)); add(U"c", c, val::ofc('a'));
        add(U"s0", s0, val::ofs(U"")); add(U"s1", s1, val::ofs(U"a")); add(U"s2", s2, val::ofs(U"b\u00e9\u6f22")); add(U"d", d, val::ofd(2.5)); add(U"d0", d0, val::ofd(0)); add(U"fl", fl, val::off(-0.5f)); add(U"u", u, val::of(10));
        add(U"mn", mn, val::of(mn)); add(U"mx", mx, val::of(mx)); add(U"ui", ui, val::of(4294967295ll)); add(U"sc", sc, val::of(-1)); add(U"sa", sa, val::ofs(U"10"));
        add(U"inf", inf, val::ofd(inf)); add(U"nan", nan, val::ofd(nan));
        val ov; ov.k = val::OBJ; ov.s = U"ob"; add(U"o", o, ov);
        add(U"v", v, val::ofv(val::VEC, {val::of(0), val::of(5)}));
        add(U"ptr", ptr, val::ofp(0));
    }
};
static args& A() { static args a; return a; }
static ref::outcome check(vk::S& s, ref::u32v t, bool run = true)
{
    auto o = ref::run<C>(t, A().pos, A().named);
    if(!run) return o;
    auto enc = W<C>(t);
    s.desc(bytes<C>(enc));
    exact<C> e(enc);
    auto r = attempt<C>([&] { return vfmt<C>(e.view(), A().dyn); });
    judge<C>(s, "vformat", r, o, true);
    s.trans(); s.state(vk::hash_str(r.threw ? "E" + r.what : bytes<C>(r.text), vk::hash_str(o.why)));
    s.sample("[" + bytes<C>(enc) + "] -> " + (r.threw ? "exception" : "[" + bytes<C>(r.text) + "]"));
    return o;
}

int main(int argc, char** argv)
{
    static const char32_t* operand[] = {U"0", U"1", U"-1", U"2", U"10", U"2147483648", U"9223372036854775807", U"-9223372036854775808", U"00", U"-0", U"0.0", U".5", U"-.5", U"1.", U"2.5", U"-0.5", U"10.0", U"0.00000001", U"16777217", U"16777216.0",
        U"''", U"'a'", U"'b'", U"'ab'", U"'10'", U"'\\''", U"'b\u00e9\u6f22'", U"'b\u00e9'", U"'\\t\\n'", U"'\U0001F600'",
        U"{z}", U"{one}", U"{im}", U"{t}", U"{f}", U"{c}", U"{s0}", U"{s1}", U"{s2}", U"{d}", U"{d0}", U"{fl}", U"{u}", U"{mn}", U"{mx}", U"{ui}", U"{sc}", U"{sa}", U"{inf}", U"{nan}", U"{o[2]}", U"{o.x}", U"{s2.length}", U"{s2.size}", U"{s2[0]}", U"{s2[1:]}", U"{v[1]}", U"{v.size}", U"{}", U"{2}", U"{4[-1]}",
        U"{o}", U"{v}", U"{v[9]}", U"{ptr}", U"{nope}", U"{99}", U"{s1.nope}"};
    static const char32_t* ops[] = {U"==", U"!=", U"<", U"<=", U">", U">="};
    vk::section("comparisons", [&](vk::S& s)
    {
        for(auto* a : operand) for(auto* op : ops) for(auto* b : operand)
            for(int sp = 0; sp < 2; ++sp)
                if(s.next()) { ref::u32 w = sp ? U" \t" : U""; check(s, U"{$" + w + a + w + op + w + b + w + U"?" + w + U"'Y'" + w + U":" + w + U"'N'" + w + U"}"); }
    });
    vk::section("truth", [&](vk::S& s)
    {
        for(auto* a : operand) for(auto* n : {U"", U"!", U"! ", U"!!", U"-", U"+", U"("}) for(auto* tail : {U"?'Y':'N'}", U" ? 'Y' : 'N' }", U"?'Y'}", U"? {z} : {one} }.", U" 'Y'}", U"=='Y'}", U"}"})
            if(s.next()) check(s, ref::u32(U"{$ ") + n + a + tail);
    });
    // every truth assignment of a chain, every branch kind, implicit numbering before and after
    vk::section("chains", [&](vk::S& s)
    {
        static const char32_t* cond[] = {U"$ 1", U"$ 0", U"$ {}", U"$!{}", U"$ {s2} > 'b'", U"$ {nope}"};
        static const char32_t* br[] = {U"'A'", U"{}", U"{o:e}", U"{o:bad}", U"{:{}}", U"{z:y}", U"{nope}"};
        static const char32_t* el[] = {U"", U": 'E'", U":{}", U":{o:f}", U": {o:bad}", U":{z:y}", U":", U": 'E' : 'F'", U":{}:$1?{}:{}", U":''"};
        const unsigned NC = sizeof(cond) / sizeof(*cond), NB = sizeof(br) / sizeof(*br);
        unsigned deep = vk::thorough() ? 4 : 3;
        vk::token_tree(s, NC * NB, deep, 2, [&](const std::vector<int>& ix, bool run)
        {
            ref::u32 t = U"{}{";
            for(std::size_t i = 0; i < ix.size(); ++i) { if(i) t += U" : "; t += cond[ix[i] / NB]; t += U" ? "; t += br[ix[i] % NB]; }
            bool any = false;
            if(run) { for(auto* e : el) { if(!s.ok()) break; auto o = check(s, t + e + U"}{:d}|", true); any |= o.k == o.TEXT; } }
            else for(auto* e : el) { auto o = check(s, t + e + U"}{:d}|", false); any |= o.k == o.TEXT; if(any) break; }
            return any || ix.size() < 2;
        });
    });
    // literal texts as taken branch, skipped branch and operand
    vk::section("literals", [&](vk::S& s)
    {
        static const char32_t* p[] = {U"a", U"\\'", U"\\\\", U"\\n", U"\\t", U"\\q", U"\\\u6f22", U"\u00e9", U"\U0001F600", U"{", U"}", U":", U"?", U"$", U" ", U"'", U"\\", U"\""};
        vk::token_tree(s, sizeof(p) / sizeof(*p), vk::thorough() ? 5 : 4, 2, [&](const std::vector<int>& ix, bool run)
        {
            if(!run) return true;
            ref::u32 l = U"'"; for(int i : ix) l += p[i]; l += U"'";
            check(s, U"{$ 1 ? " + l + U" : 'n'}");
            if(s.ok()) check(s, U"{$ 0 ? " + l + U" : 'n'}");
            if(s.ok()) check(s, U"<{$ " + l + U" == " + l + U" ? {o[" + l + U"]}}>");
            if(s.ok()) check(s, U"{$ " + l + U" > 'a' ? 'gt' : $ {s2} < " + l + U" ? 'lt'}");
            return true;
        });
    });
    // separators between all parts of a script
    vk::section("spacing", [&](vk::S& s)
    {
        static const char32_t* parts[] = {U"{$", U"!", U"{f}", U"?", U"'A'", U":", U"$", U"{one}", U"==", U"1.0", U"?", U"{o:x}", U":", U"'C'", U"}"};
        static const char32_t* sp[] = {U"", U" ", U"\t\n\r\v\f ", U"\u3000", U".", U"}"};
        const int N = sizeof(parts) / sizeof(*parts);
        for(int i = 0; i < N; ++i) for(int j = i; j < N; ++j) for(auto* a : sp) for(auto* b : sp) for(int base = 0; base < 2; ++base)
        {
            if(!s.next()) continue;
            ref::u32 t; for(int k = 0; k < N; ++k) { t += parts[k]; if(k == i) t += a; if(k == j && j != i) t += b; if(base && k + 1 < N) t += U" "; }
            check(s, t + U"{}");
        }
    });
    // several scripts in one template, and scripts between fields
    vk::section("sequences", [&](vk::S& s)
    {
        static const char32_t* tk[] = {U"{$ {} ? {}}", U"{$ {one}==1 ? 'a{' : {}}", U"{$ {z} ? {} : {:3}}", U"{$ !{} ? {o:p} : $ {} ? {o:q} : {o:r}}", U"{}", U"{2}", U"x", U"{{", U"{$ 0 ? {:{}} : {:{}}}", U"{$ {2} ? 'e' : {0}}"};
        vk::token_tree(s, sizeof(tk) / sizeof(*tk), vk::thorough() ? 6 : 5, 2, [&](const std::vector<int>& ix, bool run)
        {
            ref::u32 t; for(int i : ix) t += tk[i];
            return check(s, t, run).k == ref::outcome::TEXT;
        });
    });
    return vk::main(argc, argv, "C03");
}
