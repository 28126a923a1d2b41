// C07: escaped output of any sequence of code units
#include "world.hpp"
#ifndef CH
#define CH char
#endif
using C = CH;
using str = std::basic_string<C>;
using sv = std::basic_string_view<C>;
static std::uint32_t val(C c) { return std::uint32_t(c) & (sizeof(C) == 1 ? 0xFFu : sizeof(C) == 2 ? 0xFFFFu : ~0u); }

// reads escaped text back, independently of how it was produced
static bool unescape(sv t, str& r)
{
    r.clear();
    for(std::size_t i = 0; i < t.size(); ++i)
    {
        if(t[i] != C('\\')) { if(val(t[i]) < 0x20) return false; r += t[i]; continue; }
        if(++i >= t.size()) return false;
        switch(val(t[i]))
        {
        case 't': r += C('\t'); break; case 'n': r += C('\n'); break; case 'r': r += C('\r'); break;
        case '\\': r += C('\\'); break; case '"': r += C('"'); break; case '\'': r += C('\''); break;
        case 'x': case 'u':
        {
            bool x = val(t[i]) == 'x';
            if(++i >= t.size() || val(t[i]) != '{') return false;
            std::uint64_t v = 0; std::size_t k = 0;
            for(++i; i < t.size() && val(t[i]) != '}'; ++i, ++k)
            {
                auto d = val(t[i]);
                v = v * 16 + (d >= '0' && d <= '9' ? d - '0' : d >= 'a' && d <= 'f' ? d - 'a' + 10 : 99999999);
                if(v > 0xFFFFFFFF) return false;
            }
            if(i >= t.size() || !k) return false;
            if(x) r += C(v); else r += W<C>(ref::u32(1, char32_t(v)));
            break;
        }
        default: return false;
        }
    }
    return true;
}
template <typename T> static void one(vk::S& s, const char* form, const T& arg, sv v, char32_t q, sv f)
{
    s.trans();
    auto r = attempt<C>([&] { return vfmt<C>(f, papilio::make_format_args<ctx_t<C>>(arg)); });
    if(!s.ok()) return;
    if(r.threw) return s.fail(std::string(form) + ": exception " + r.what);
    str back;
    if(!unescape(r.text, back)) return s.fail(std::string(form) + ": not an escaped text: [" + vk::hex_escape(bytes<C>(r.text)) + "]");
    if(back != v) return s.fail(std::string(form) + ": [" + vk::hex_escape(bytes<C>(r.text)) + "] reads back as [" + vk::hex_escape(bytes<C>(back)) + "]");
    if(q)
    {
        auto w = ref::escaped<C>(v, q);
        if(r.text != w) return s.fail(std::string(form) + ": got [" + vk::hex_escape(bytes<C>(r.text)) + "] expected [" + vk::hex_escape(bytes<C>(w)) + "]");
    }
    s.state(vk::hash_str(bytes<C>(r.text)));
}
static void text(vk::S& s, const str& v, bool exactly = true, bool full = false)
{
    s.desc("text [" + vk::hex_escape(bytes<C>(v)) + "]");
    static const str f = W<C>(U"{:?}");
    exact<C> e(v);
    one(s, "string_view", e.view(), v, exactly ? U'"' : 0, f);
    if(full && s.ok()) one(s, "string_ref", papilio::utf::basic_string_ref<C>(e.view()), v, exactly ? U'"' : 0, f);
    if(full && s.ok() && v.find(C(0)) == v.npos) one(s, "const C*", v.c_str(), v, exactly ? U'"' : 0, f);
    if(v.size() == 3) s.sample("[" + vk::hex_escape(bytes<C>(v)) + "]");
}
static std::vector<C> alphabet()
{
    if constexpr(sizeof(C) == 1) return {C('a'), C('"'), C('\\'), C('\n'), C(0), C(0x1f), C(0x80), C(0xBF), C(0xC3), C(0xE6), C(0xF0), C(0xF4), C(0xF8), C(0xFF), C('\'')};
    else if constexpr(sizeof(C) == 2) return {C('a'), C('"'), C('\\'), C('\n'), C(0), C(0x1f), C(0x7f), C(0xe9), C(0xD7FF), C(0xD800), C(0xDBFF), C(0xDC00), C(0xDFFF), C(0xE000), C(0xFFFF)};
    else return {C('a'), C('"'), C('\\'), C('\n'), C(0), C(0x1f), C(0x7f), C(0xe9), C(0x6f22), C(0xFFFF), C(0x10000), C(0x10FFFF), C('x'), C('{'), C('\'')};
}
int main(int argc, char** argv)
{
    vk::section("sequences", [](vk::S& s)
    {
        auto al = alphabet();
        vk::token_tree(s, unsigned(al.size()), vk::thorough() ? 6 : sizeof(C) == 1 ? 5 : 4, 2, [&](const std::vector<int>& ix, bool run)
        {
            if(!run) return true;
            str v; for(int i : ix) v += al[i];
            text(s, v, true, v.size() < 4);
            return true;
        });
    });
    vk::section("pairs of code units", [](vk::S& s)
    {
        if constexpr(sizeof(C) == 1)
        {
            for(unsigned a = 0; a < 256; ++a) for(unsigned b = 0; b < 256; ++b) { if(!s.next()) continue; text(s, str{C(a), C(b)}); }
            for(unsigned a = 0; a < 256; ++a) { if(!s.next()) continue; text(s, str{C(a)}, true, true); }
            // every lead byte with continuation bytes complete and cut
            for(unsigned a = 0xC0; a < 256; ++a) for(unsigned b : {0x80u, 0x8fu, 0x90u, 0xbfu, 0x7fu, 0xc0u}) for(unsigned c : {0x80u, 0xbfu, 0x41u, 0xffu}) for(unsigned d : {0x80u, 0xbfu, 0x5cu, 0xe0u})
            { if(!s.next()) continue; text(s, str{C(a), C(b), C(c), C(d)}); }
        }
        else if constexpr(sizeof(C) == 2)
        {
            std::vector<C> v; for(unsigned a = 0; a < 0x10000; a += a < 0x100 ? 1 : 0x3f) v.push_back(C(a));
            for(unsigned a : {0xD7FFu, 0xD800u, 0xDBFFu, 0xDC00u, 0xDFFFu, 0xE000u, 0xFFFEu}) v.push_back(C(a));
            for(unsigned a = 0; a < 0x10000; ++a) { if(!s.next()) continue; text(s, str{C(a)}); }
            for(C a : v) { if(!s.next()) continue; for(C b : v) { text(s, str{a, b}); if(!s.ok()) break; } }
        }
        else
        {
            // the library renders any 32-bit unit; only reading back is required outside Unicode
            for(std::uint32_t a : {0x110000u, 0x1fffffu, 0x200000u, 0x7fffffffu, 0x80000000u, 0xffffffffu}) { if(!s.next()) continue; text(s, str{C(a)}, false); if(s.ok()) text(s, str{C('a'), C(a), C('"')}, false); }
        }
    });
    vk::section("every code point", [](vk::S& s)
    {
        for(char32_t b = 0; b < 0x110000; b += 64)
        {
            if(sizeof(C) != 4 && b >= 0xD800 && b < 0xE000) continue;
            if(!s.next()) continue;
            for(char32_t c = b; c < b + 64 && s.ok(); ++c)
            {
                text(s, W<C>(ref::u32(1, c)));
                if(!s.ok()) break;
                if(vk::thorough()) { text(s, W<C>(ref::u32{U'\\', c, U'"'})); if(!s.ok()) break; }
                static const str f = W<C>(U"{:?}");
                auto v = W<C>(ref::u32(1, c));
                one(s, "code point", papilio::utf::codepoint(c), v, U'\'', f);
            }
        }
    });
    vk::section("characters", [](vk::S& s)
    {
        static const str f = W<C>(U"{:?}");
        for(std::uint32_t a = 0; a < (sizeof(C) == 1 ? 0x80u : sizeof(C) == 2 ? 0x10000u : 0x3000u); ++a)
        {
            if(!s.next()) continue;
            s.desc("character " + std::to_string(a));
            if(sizeof(C) == 2 && a >= 0xD800 && a < 0xE000)
            {   // not a code point by itself: either refused or shown so that it reads back
                auto r = attempt<C>([&] { return vfmt<C>(f, papilio::make_format_args<ctx_t<C>>(C(a))); });
                s.expect(!r.foreign, "foreign exception"); str back; s.trans();
                if(!r.threw) s.expect(unescape(r.text, back) && back == str(1, C(a)), "lost");
                continue;
            }
            one(s, "character", C(a), str(1, C(a)), sizeof(C) == 2 && a >= 0xD800 && a < 0xE000 ? 0 : U'\'', f);
        }
    });
    // escaped elements of ranges and in the middle of output
    vk::section("surroundings", [](vk::S& s)
    {
        auto al = alphabet();
        vk::token_tree(s, unsigned(al.size()), vk::thorough() ? 4 : 3, 1, [&](const std::vector<int>& ix, bool run)
        {
            if(!run) return true;
            str v; for(int i : ix) v += al[i];
            s.desc("surrounded text [" + vk::hex_escape(bytes<C>(v)) + "]");
            exact<C> e(v); auto esc = ref::escaped<C>(v, U'"');
            auto r = attempt<C>([&] { return vfmt<C>(W<C>(U"<{0:?}|{0}|{0:?}>"), papilio::make_format_args<ctx_t<C>>(e.view())); });
            s.trans();
            auto w = W<C>(U"<") + esc + W<C>(U"|") + v + W<C>(U"|") + esc + W<C>(U">");
            if(r.threw || r.text != w) s.fail("got [" + vk::hex_escape(r.threw ? r.what : bytes<C>(r.text)) + "] expected [" + vk::hex_escape(bytes<C>(w)) + "]");
            return true;
        });
    });
    return vk::main(argc, argv, "C07");
}
