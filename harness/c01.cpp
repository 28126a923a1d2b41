// C01: every template ends in text or an exception, safely, and errors are errors
#include "world.hpp"
#ifndef CH
#define CH char
#endif
using C = CH;
static world<C>& w() { static world<C> x; return x; }

// One template.  Returns whether it is incomplete (an extension can matter).
static bool run_one(vk::S& s, std::basic_string_view<C> t, bool run)
{
    ref::outcome o; bool incomplete = false, wellformed = true;
    ref::u32 u;
    for(auto& x : ref::segment<C>(t)) { if(!x.ok) wellformed = false; u += x.cp; }
    if(wellformed)
    {
        ref::interp<C> in; in.t = u; in.pos = &w().pos; in.named = &w().named;
        try { in.run(); o.text = in.out; }
        catch(ref::error& e) { o.k = o.ERROR; o.why = e.what; incomplete = in.p >= u.size(); }
        catch(ref::unspecified& e) { o.k = o.UNSPEC; o.why = e.what; incomplete = in.p >= u.size(); }
        o.effects = in.effects;
    }
    else { o.k = o.UNSPEC; o.why = "ill-formed template"; }
    if(!run) return incomplete;
    s.desc(bytes<C>(t));
    exact<C> e(t);
    auto r = attempt<C>([&] { return vfmt<C>(e.view(), w().dyn); });
    judge<C>(s, "vformat", r, o);
    s.trans();
    if(wellformed) s.state(vk::hash_str(r.threw ? "E" + r.what : bytes<C>(r.text)));
    s.sample("[" + bytes<C>(t) + "] -> " + (r.threw ? "exception " + r.what : "[" + bytes<C>(r.text) + "]"));
    return incomplete;
}

static void grow(vk::S& s, const std::vector<std::basic_string<C>>& tok, unsigned full, unsigned deep)
{
    vk::token_tree(s, unsigned(tok.size()), deep, 2, [&](const std::vector<int>& ix, bool run)
    {
        std::basic_string<C> t;
        for(int i : ix) t += tok[i];
        bool inc = run_one(s, t, run);
        return ix.size() < full || inc;
    });
}

int main(int argc, char** argv)
{
    std::vector<std::basic_string<C>> ch, tk;
    for(char c : std::string("{}$:?'\\[].019- =!<axL#")) ch.push_back(std::basic_string<C>(1, C(c)));
    ch.push_back(W<C>(U"\u00e9"));
    if constexpr(sizeof(C) == 1) { ch.push_back({C(0xC3)}); ch.push_back({C(0xFF)}); ch.push_back({C(0xE6), C(0xBC)}); }
    else if constexpr(sizeof(C) == 2) { ch.push_back({C(0xD83D)}); ch.push_back({C(0xDE00)}); }
    else ch.push_back({C(0x1F600)});
    const char* words[] = {"{", "}", "{$", "{}", "{1}", "{a}", "{0:", "{3:", "{9:", "{6", "{7", "{8", ".length", ".x", ".self", "[0]", "[-1]", "[1:]", "['k']", ":", "?", "'s'", "'\\'", " ", "==", "!", "<=", "12", "-3", ".5", "#", "0", "L", "c", "\xC3\xA9>"};
    for(auto x : words) { auto u = ref::dec<char>(std::string_view(x)); tk.push_back(W<C>(u)); }

    // sections are built before the arguments are parsed: read the tier when they run
    std::string part = vk::part(argc, argv);
    if(part == "main" || part == "u16")
    {
#ifdef SMALL
    vk::section("characters", [&](vk::S& s) { bool T = vk::thorough(); grow(s, ch, T ? 4 : 3, T ? 7 : 5); });
    vk::section("tokens", [&](vk::S& s) { bool T = vk::thorough(); grow(s, tk, T ? 3 : 2, T ? 6 : 5); });
#else
    vk::section("characters", [&](vk::S& s) { bool T = vk::thorough(); grow(s, ch, T ? 5 : 4, T ? 7 : 6); });
    vk::section("tokens", [&](vk::S& s) { bool T = vk::thorough(); grow(s, tk, T ? 4 : 3, T ? 7 : 5); });
#endif
    return vk::main(argc, argv, "C01");
    }
    if(part == "corpus") vk::section("mutated corpus", [&](vk::S& s)
    {
        bool T = vk::thorough();
        const char32_t* corpus[] = {
            U"x{}y", U"{0}{1}", U"{1:\u00e9^+#012.34x}", U"{0:*<{0}}", U"{3:.{a}f}", U"{3:>{a}.{0}e}", U"{:{}.{}}", U"{1[0]}{1[-1]}{1[0:2]}{1[:]}", U"{8['k']}{8.size}", U"{9.x}{9['\\n\\'\\q']}{9[1:2].length}",
            U"{9.self.self[3]:+05d}", U"{$ {0} == 3 ? 'y' : 'n'}", U"{$ !{5} ? {0} : $ {1} == 'a\u00e9' ? {9:z} : {9:bad}}", U"{$ {3} >= -2.25 ? '{{' : {9:e}}", U"{$'a'<'b'?{a:x}:'\\t'}", U"{$ 1 ? {0:0{a}} : $ 2 ? {1:.{0}} : {4:?}}",
            U"{{}}{{{0}}}", U"{\u00e9t\u00e9:_^9s}{A_b9}", U"{6[0:2][1]}{6.size:x}", U"{17[1].length}{10[1][0]:c}", U"{11.first}{11.second:?}", U"{7[1]}{7.min.size}", U"{2:c}{4:d}{5:s}{5:#x}", U"{12:+a}{3:G}{13:b}", U"{14:?}{14[0]:d}{15:5}{16:<#6o}",
        };
        const char32_t subst[] = U"{}$:?'\\[].01- =!<a#\u6f22\u00e9";
        int nc = 0;
        for(auto* t0 : corpus)
        {
            ref::u32 t = t0; ++nc;
            std::vector<ref::u32> one;
            one.push_back(t);
            for(std::size_t i = 0; i < t.size(); ++i)
            {
                one.push_back(t.substr(0, i)); one.push_back(t.substr(i)); 
                auto d = t; d.erase(i, 1); one.push_back(d);
                if(i) { d = t; std::swap(d[i], d[i - 1]); one.push_back(d); }
                d = t; d.insert(i, 1, t[i]); one.push_back(d);
            }
            for(std::size_t i = 0; i <= t.size(); ++i)
                for(char32_t c : std::u32string_view(subst))
                {
                    auto d = t; d.insert(i, 1, c); one.push_back(d);
                    if(i < t.size()) { d = t; d[i] = c; one.push_back(d); }
                }
            for(auto& m : one)
            {
                if(s.next()) run_one(s, W<C>(m), true);
                // every mutant again with every single deletion and truncation
                if(!T && m.size() > 26) continue;
                for(std::size_t i = 0; i < m.size(); ++i)
                {
                    if(s.next()) run_one(s, W<C>(m.substr(0, i)), true);
                    if(s.next()) { auto d = m; d.erase(i, 1); run_one(s, W<C>(d), true); }
                    if(T) for(char32_t c : std::u32string_view(subst)) if(s.next()) { auto d = m; d[i] = c; run_one(s, W<C>(d), true); }
                }
            }
        }
        (void)nc;
    });
    // every pair of corpus pieces cut anywhere: fields interrupted by other fields
    if(part == "splice") vk::section("spliced corpus", [&](vk::S& s)
    {
        const char32_t* corpus[] = {U"{0:*<{0}}", U"{3:.{a}f}", U"{1[0:2]}", U"{9['\\n\\'q']}", U"{$ {0}==3?'y':'n'}", U"{$!{5}?{0}:${1}=='a'?{9:z}:{9:b}}", U"{{}}", U"{:{}}", U"{a:#x}", U"{8['k']}"};
        for(auto* a : corpus) for(auto* b : corpus)
        {
            ref::u32v x = a, y = b;
            for(std::size_t i = 0; i <= x.size(); ++i) for(std::size_t j = 0; j <= y.size(); ++j)
                if(s.next()) run_one(s, W<C>(ref::u32(x.substr(0, i)) + ref::u32(y.substr(j))), true);
        }
    });
    return vk::main(argc, argv, "C01");
}
