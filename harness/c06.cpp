// C06: text is truncated and padded by display width
#include "world.hpp"
#ifndef CH
#define CH char
#endif
using C = CH;
using str = std::basic_string<C>;
using sv = std::basic_string_view<C>;
static constexpr bool narrow = std::is_same_v<C, char>;
struct sp { ref::spec s; ref::u32 text; };
static sp mk(char32_t f, char a, std::size_t w, long pr, char t)
{
    sp x; auto& s = x.s;
    if(f) { s.fill = f; x.text += f; }
    if(a) { s.align = a; x.text += char32_t(a); }
    if(w) { s.width = w; x.text += ref::A(std::to_string(w)); }
    if(pr >= 0) { s.prec = pr; x.text += U"." + ref::A(std::to_string(pr)); }
    if(t) { s.type = t; x.text += char32_t(t); }
    return x;
}
static str tmpl(const sp& x) { return W<C>(x.text.empty() ? ref::u32(U"{}") : U"{:" + x.text + U"}"); }
template <typename T> void one(vk::S& s, const char* form, const T& v, const sp& x, const ref::u32& val, const str& w)
{
    s.trans();
    str got; std::string what; bool threw = false;
    try { got = vfmt<C>(sv(tmpl(x)), papilio::make_format_args<ctx_t<C>>(v)); } catch(const std::exception& e) { threw = true; what = e.what(); }
    if(!s.ok()) return;
    if(threw) return s.fail(std::string(form) + " [" + bytes<C>(tmpl(x)) + "]: expected [" + vk::hex_escape(bytes<C>(w)) + "], got exception " + what);
    if(got != w) return s.fail(std::string(form) + " [" + bytes<C>(tmpl(x)) + "]: expected [" + vk::hex_escape(bytes<C>(w)) + "], got [" + vk::hex_escape(bytes<C>(got)) + "]");
}
static std::vector<sp> grid(std::vector<std::size_t> ws, std::vector<long> ps, const ref::u32& fills, bool typed)
{
    std::vector<sp> v; std::vector<std::pair<char32_t, char>> fa{{0, 0}};
    for(char a : std::string("<>^")) { fa.push_back({0, a}); for(char32_t f : fills) fa.push_back({f, a}); }
    for(auto [f, a] : fa) for(auto w : ws) for(auto p : ps) { if(!w && f) continue; v.push_back(mk(f, a, w, p, 0)); if(typed && !f) v.push_back(mk(f, a, w, p, 's')); }
    return v;
}
int main(int argc, char** argv)
{
    vk::section("strings", [](vk::S& s)
    {
        static const char32_t al[] = {U'a', U'\u00e9', U'\u6f22', U'\U0001F600', U'\U0001F650'};
        bool th = vk::thorough();
        std::vector<std::size_t> ws{0, 1, 2, 3, 4, 5, 7, 8, 9, 11}; std::vector<long> ps{-1, 0, 1, 2, 3, 4, 5, 6, 7, 9};
        if(th) { ws.clear(); for(int i = 0; i <= 14; ++i) ws.push_back(i); ps.clear(); for(int i = -1; i <= 13; ++i) ps.push_back(i); }
        auto g = grid(ws, ps, U"\u6f22", false), small = grid({0, 5, 8}, {-1, 0, 3, 4, 7}, U"*", true);
        auto all = [&](const std::vector<int>& ix, bool run)
        {
            if(!run) return true;
            ref::u32 v; for(int i : ix) v += al[i];
            auto enc = W<C>(v);
            s.desc("text [" + bytes<C>(enc) + "] under every width, precision, fill and alignment");
            exact<C> e(enc); sv view = e.view();
            auto& gg = ix.size() <= (th ? 5u : 4u) ? g : small;
            for(auto& x : gg) { one(s, "string_view", view, x, v, W<C>(ref::text(v, x.s))); if(!s.ok()) return true; }
            if(ix.size() <= 3) for(auto& x : small)
            {
                auto w = W<C>(ref::text(v, x.s));
                one(s, "string", enc, x, v, w); if(!s.ok()) return true;
                one(s, "const C*", enc.c_str(), x, v, w); if(!s.ok()) return true;
                one(s, "string_ref", papilio::utf::basic_string_ref<C>(view), x, v, w); if(!s.ok()) return true;
                one(s, "string_container", papilio::utf::basic_string_container<C>(enc), x, v, w); if(!s.ok()) return true;
            }
            s.state(bytes<C>(enc)); s.sample("[" + bytes<C>(enc) + "]");
            return true;
        };
        { std::vector<int> none; if(s.enter(0, vk::S::owner(0))) all(none, true); }
        vk::token_tree(s, 5, th ? 7 : narrow ? 6 : 5, 1, all);
    });
    vk::section("every code point", [](vk::S& s)
    {
        for(char32_t b = 0; b < 0x110000; b += 64)
        {
            if(b >= 0xD800 && b < 0xE000) continue;
            if(!s.next()) continue;
            s.desc("code points from U+" + std::to_string(b));
            static sp x = mk(U'*', '<', 4, -1, 0), y = mk(U'*', '>', 3, 1, 0), z = mk(0, '^', 3, -1, 0);
            for(char32_t c = b; c < b + 64 && s.ok(); ++c)
            {
                if(papilio::utf::codepoint(c).estimate_width() != std::size_t(ref::width(c))) { s.fail("width of U+" + std::to_string(c)); break; }
                ref::u32 v(1, c), v2(2, c);
                one(s, "string", W<C>(v2), x, v2, W<C>(ref::text(v2, x.s)));
                if(s.ok()) one(s, "string", W<C>(v), y, v, W<C>(ref::text(v, y.s)));
                if(s.ok()) one(s, "code point", papilio::utf::codepoint(c), z, v, W<C>(ref::character(c, z.s)));
            }
        }
    });
    vk::section("every fill", [](vk::S& s)
    {
        auto block = [&](char32_t b, char32_t e)
        {
            for(char32_t c = b; c < e && s.ok(); ++c)
            {
                if(c == U'{' || c == U'}' || c == 0) continue;
                for(char a : std::string("<^>"))
                {
                    auto x = mk(c, a, 5, -1, 0);
                    one(s, "string", W<C>(U"\u6f22"), x, U"\u6f22", W<C>(ref::text(U"\u6f22", x.s)));
                    if(!s.ok()) return;
                    ref::spec p = x.s; one(s, "int", 42, x, U"", W<C>(ref::integer(42, p)));
                    if(!s.ok()) return;
                }
            }
        };
        char32_t lim = vk::thorough() ? 0x110000 : 0x3400;
        for(char32_t b = 0; b < 0x110000; b += 64)
        {
            if((b >= 0xD800 && b < 0xE000) || (b >= lim && b % 0x1000)) continue;
            if(!s.next()) continue;
            s.desc("fills from U+" + std::to_string(b)); block(b, b + 64);
        }
    });
    vk::section("characters", [](vk::S& s)
    {
        std::vector<C> cs{C('a'), C('0'), C(' '), C(1)};
        if constexpr(sizeof(C) > 1) { cs.push_back(C(0x6f22)); cs.push_back(C(0xe9)); }
        if constexpr(sizeof(C) > 2) cs.push_back(C(0x1f600));
        std::vector<std::size_t> ws; for(int i = 0; i < 20; ++i) ws.push_back(i);
        for(auto& x : grid(ws, {-1}, U"*\u6f22<\U0001F600", false)) for(char t : std::string("\0c", 2))
        {
            if(!s.next()) continue;
            auto y = x; if(t) { y.s.type = t; y.text += char32_t(t); }
            s.desc("characters under [" + bytes<C>(tmpl(y)) + "]");
            for(C c : cs) { one(s, "character", c, y, U"", W<C>(ref::character(char32_t(c), y.s))); if(!s.ok()) break; }
            for(char32_t c : {0x41u, 0xe9u, 0x1100u, 0x6f22u, 0x1f600u}) { if(!s.ok()) break; one(s, "code point", papilio::utf::codepoint(c), y, U"", W<C>(ref::character(c, y.s))); }
        }
    });
    // long texts: precision in the middle of long runs, large widths
    vk::section("long texts", [](vk::S& s)
    {
        for(std::size_t len : {15u, 16u, 17u, 31u, 64u, 127u, 128u, 255u, 256u, 257u, 1000u}) for(int pat = 0; pat < 5; ++pat) for(long pr : {-1l, 0l, 1l, 14l, 15l, 16l, 63l, 64l, 127l, 128l, 129l, 255l, 256l, 257l, 300l, 512l, 1000l, 2000l}) for(std::size_t w : {0u, 17u, 128u, 300u, 2100u})
        {
            if(!s.next()) continue;
            ref::u32 v; for(std::size_t i = 0; i < len; ++i) v += U"a\u00e9\u6f22\U0001F600\uff21"[pat == 0 ? 0 : pat == 1 ? 2 : pat == 2 ? i % 5 : pat == 3 ? (i % 16 == 15 ? 2 : 0) : (i * i) % 5];
            auto x = mk(U'*', '^', w, pr, 's'); if(!w) x = mk(0, 0, 0, pr, 0);
            s.desc("length " + std::to_string(len) + " pattern " + std::to_string(pat) + " [" + bytes<C>(tmpl(x)) + "]");
            exact<C> e(W<C>(v)); one(s, "string_view", e.view(), x, v, W<C>(ref::text(v, x.s)));
        }
    });
    // ill-formed text: what is kept is a prefix made of whole units, and the padding surrounds it
    vk::section("ill-formed text", [](vk::S& s)
    {
        if constexpr(sizeof(C) < 4)
        {
            static const std::vector<C> al = sizeof(C) == 1 ? std::vector<C>{C('a'), C(0x80), C(0xC3), C(0xE6), C(0xBC), C(0xF0), C(0xFF)} : std::vector<C>{C('a'), C(0xD83D), C(0xDE00), C(0x6f22)};
            vk::token_tree(s, unsigned(al.size()), vk::thorough() ? 6 : sizeof(C) == 1 ? 4 : 5, 1, [&](const std::vector<int>& ix, bool run)
            {
                if(!run) return true;
                str v; for(int i : ix) v += al[i];
                s.desc("text [" + vk::hex_escape(bytes<C>(v)) + "]");
                exact<C> e(v);
                auto seg = ref::segment<C>(v);
                for(long p : {-1l, 0l, 1l, 2l, 3l, 4l, 6l}) for(std::size_t w : {0u, 3u, 6u}) for(char a : std::string("\0>^", 3))
                {
                    auto x = mk(0, a, w, p, 0); auto t = tmpl(x); s.trans();
                    auto r = attempt<C>([&] { return vfmt<C>(t, papilio::make_format_args<ctx_t<C>>(e.view())); });
                    if(r.foreign) { s.fail("foreign exception"); return true; }
                    if(r.threw) continue;
                    std::size_t b = 0, n = r.text.size();
                    while(b < n && r.text[b] == C(' ')) ++b;
                    while(n > b && r.text[n - 1] == C(' ')) --n;
                    str core = r.text.substr(b, n - b);
                    bool ok = v.compare(0, core.size(), core) == 0 && (p >= 0 || core == v);
                    bool at = core.size() == v.size(); for(auto& u : seg) at |= u.off == core.size();
                    if(!ok || !at) { s.fail("[" + bytes<C>(t) + "] gives [" + vk::hex_escape(bytes<C>(r.text)) + "]"); return true; }
                }
                return true;
            });
        }
    });
    return vk::main(argc, argv, "C06");
}
