// C04: integers, booleans, characters, pointers and enumerations under every specification
#include "world.hpp"
#ifndef CH
#define CH char
#endif
using C = CH;
using str = std::basic_string<C>;
using sv = std::basic_string_view<C>;
static constexpr bool narrow = std::is_same_v<C, char>;

// ---- specifications ---------------------------------------------------------
struct sp { ref::spec s; ref::u32 text; };
struct grid { std::u32string fills = U"*\u6f22"; std::string signs = "0+- "; std::vector<std::size_t> widths{0, 1, 2, 5, 8, 12, 20, 70}; std::string types; bool alt = true, zero = true; };
static std::vector<sp> specs(const grid& g)
{
    std::vector<sp> v;
    // no alignment, alignment alone, alignment with a fill
    std::vector<std::pair<char32_t, char>> fa{{0, 0}};
    for(char a : std::string("<>^")) { fa.push_back({0, a}); for(char32_t f : g.fills) fa.push_back({f, a}); }
    std::string types = std::string(1, '\0') + g.types;
    for(auto [f, a] : fa) for(char sg : g.signs) for(int alt = 0; alt <= int(g.alt); ++alt) for(int z = 0; z <= int(g.zero); ++z) for(auto w : g.widths) for(char t : types)
    {
        sp x; auto& s = x.s;
        if(f) { s.fill = f; x.text += f; }
        if(a) { s.align = a; x.text += char32_t(a); }
        if(sg != '0') { s.sign = sg; x.text += char32_t(sg); }
        if(alt) { s.alt = true; x.text += U'#'; }
        if(z) { s.zero = true; x.text += U'0'; }
        if(w) { s.width = w; x.text += ref::A(std::to_string(w)); }
        if(t) { s.type = t; x.text += char32_t(t); }
        v.push_back(x);
    }
    return v;
}

template <typename T> const char* nm()
{
    static std::string s = [] { std::string p = __PRETTY_FUNCTION__; auto b = p.find("T = ") + 4; return p.substr(b, p.find_last_of(']') - b); }();
    return s.c_str();
}
// one value under one specification
template <typename T, typename R> void one(vk::S& s, const T& v, const ref::u32& tmpl, const str& enc, const std::string& vname, R want)
{
    ref::u32 w; bool err = false;
    try { w = want(); } catch(ref::error&) { err = true; } catch(ref::unspecified&) { return; }
    s.trans();
    bool threw = false, foreign = false; str got; std::string what;
    try { got = vfmt<C>(sv(enc), papilio::make_format_args<ctx_t<C>>(v)); } catch(const papilio::format_error& e) { threw = true; what = e.what(); } catch(const std::exception& e) { threw = true; what = e.what(); } catch(...) { foreign = true; }
    if(!s.ok()) return;
    if(foreign) return s.fail(vname + ": foreign exception");
    if(err && !threw) return s.fail(vname + ": expected an error, got [" + vk::hex_escape(bytes<C>(got)) + "]");
    if(err) return;
    if(threw) return s.fail(vname + ": expected [" + vk::hex_escape(bytes<C>(W<C>(w))) + "], got exception " + what);
    if(got != W<C>(w)) s.fail(vname + ": expected [" + vk::hex_escape(bytes<C>(W<C>(w))) + "], got [" + vk::hex_escape(bytes<C>(got)) + "]");
    s.state(vk::hash_str(bytes<C>(got)));
}
template <typename T, typename R> void all(vk::S& s, const std::vector<sp>& sps, const std::vector<T>& vals, R want, auto name)
{
    for(auto& x : sps)
    {
        if(!s.next()) continue;
        ref::u32 t = x.text.empty() ? U"{}" : U"{:" + x.text + U"}";
        auto e = W<C>(t);
        s.desc(bytes<C>(e) + " of " + nm<T>());
        for(auto& v : vals) { one(s, v, t, e, name(v), [&] { return want(v, x.s); }); if(!s.ok()) break; }
        s.sample("[" + bytes<C>(e) + "] of " + nm<T>() + " over " + std::to_string(vals.size()) + " values");
    }
}
template <typename T> std::string istr(T v) { return v < 0 ? std::to_string((long long)v) : std::to_string((unsigned long long)v); }

template <typename T> std::vector<T> boundary()
{
    std::vector<T> r; using L = std::numeric_limits<T>; using U = std::make_unsigned_t<T>;
    auto add = [&](T v) { if(std::find(r.begin(), r.end(), v) == r.end()) r.push_back(v); };
    for(int i = -2; i <= 10; ++i) add(T(i));
    add(L::min()); add(L::max()); add(T(L::min() + 1)); add(T(L::max() - 1));
    for(unsigned b = 3; b < sizeof(T) * 8; b += (sizeof(T) > 2 && !vk::thorough() ? 7 : 1)) { T p = T(U(1) << b); add(p); add(T(U(p) - 1)); add(T(U(0) - U(p))); }
    U p = 1; for(int i = 1; i < L::digits10 + 1; ++i) { p *= 10; if(i % 4 != 1 && !vk::thorough()) continue; add(T(p)); add(T(p - 1)); add(T(U(0) - p)); }
    for(long long c : {0xD7FFll, 0xD800ll, 0xDFFFll, 0xE000ll, 0x10FFFFll, 0x110000ll, 0x6f22ll, 65ll}) add(T(c));
    return r;
}
template <typename T> void integral(const char* name)
{
    vk::section(std::string("integers: ") + name, [](vk::S& s)
    {
        grid g; g.types = "dxXobBc";
        if(vk::thorough()) { g.fills += U"0<>^}+\u00e9\U0001F600"; g.fills.erase(g.fills.find(U'}'), 1); g.widths = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 16, 17, 18, 19, 20, 21, 22, 31, 32, 33, 34, 63, 64, 65, 66, 67, 68, 70, 200}; }
        else if(sizeof(T) == 8) g.widths = {0, 1, 5, 20, 24, 70};
        else g.widths = {0, 1, 2, 3, 7, 12, 36};
        std::vector<T> v;
        if constexpr(sizeof(T) == 1) { for(int i = 0; i < 256; ++i) if(vk::thorough() || i < 20 || i > 245 || (i > 90 && i < 102) || (i > 120 && i < 136) || i % 16 == 0) v.push_back(T(i)); }
        else v = boundary<T>();
        auto sps = specs(g);
        if(!narrow && !vk::thorough()) { std::vector<sp> q; for(std::size_t i = 0; i < sps.size(); i += 7) q.push_back(sps[i]); sps = q; }
        all(s, sps, v, [](T x, const ref::spec& p)
        {
            if(p.type == 'c' && sizeof(C) == 2 && x >= 0 && (unsigned long long)x >= 0xD800 && (unsigned long long)x < 0xE000) throw ref::unspecified{"surrogate"};
            if(p.type == 'c' && x >= 0 && (unsigned long long)x >= 0xD800 && (unsigned long long)x < 0xE000) throw ref::unspecified{"surrogate"};
            return ref::integer(x, p);
        }, istr<T>);
    });
}
// every value of the small types, under the specifications that matter for the value
template <typename T> void every(const char* name)
{
    vk::section(std::string("every value: ") + name, [](vk::S& s)
    {
        std::vector<sp> sps;
        for(const char* t : {"", "x", "#X", "+o", " #b", "06", "-<7d", "^+#9x", "#010B", ">3"})
        {
            sp x; x.text = ref::A(t); ref::interp<C> in; ref::u32 tt = x.text + U"}"; in.t = tt; x.s = in.parse_std("XxBbodc"); sps.push_back(x);
        }
        for(unsigned blk = 0; blk < (1u << (sizeof(T) * 8)); blk += 256)
        {
            if(!s.next()) continue;
            s.desc("values from " + istr(T(blk)));
            for(auto& x : sps)
            {
                ref::u32 t = U"{:" + x.text + U"}"; auto e = W<C>(t);
                for(unsigned i = 0; i < 256 && s.ok(); ++i) { T v = T(blk + i); one(s, v, t, e, bytes<C>(e) + " of " + istr(v), [&] { return ref::integer(v, x.s); }); }
            }
        }
    });
}

enum class e8 : signed char { lo = -128, neg = -1, zero = 0, one = 1, hi = 127 };
enum eu { PLAIN = 3, OTHER = 5, BIG = 100000 };
enum class el : long long { minll = std::numeric_limits<long long>::min(), a = -129, b = -128, c = 127, d = 128, maxll = std::numeric_limits<long long>::max() };
enum class eul : unsigned long long { z, top = ~0ull, m = 127, n = 128 };
enum class eb : bool { no, yes };
enum class ec : char { x = 'x', neg = -3 };
namespace deep { struct in { enum class ty : short { under_score = 7, Z9 = -7 }; }; }
using et = deep::in::ty;

template <typename E> void enums(const char* name, std::vector<std::pair<E, const char32_t*>> vals)
{
    vk::section(std::string("enum ") + name, [vals](vk::S& s)
    {
        grid g; g.types = "sdxXobB"; g.widths = {0, 1, 4, 9, 12, 70};
        std::vector<E> v; for(auto& p : vals) v.push_back(p.first);
        all(s, specs(g), v, [&](E x, const ref::spec& p) -> ref::u32
        {
            auto u = +static_cast<std::underlying_type_t<E>>(x);
            const char32_t* n = nullptr; for(auto& q : vals) if(q.first == x) n = q.second;
            ref::spec p2 = p;
            if(!p.type || p.type == 's') { if(n) return ref::text(n, p); p2.type = 'd'; }
            return ref::integer(u, p2);
        }, [](E x) { return istr(+static_cast<std::underlying_type_t<E>>(x)); });
        // precision truncates the name
        for(int pr = 0; pr < 14; ++pr) for(const char* al : {"", "*>15", "<3"})
        {
            if(!s.next()) continue;
            ref::u32 t = U"{:" + ref::A(al) + U"." + ref::A(std::to_string(pr)) + U"}"; auto e = W<C>(t);
            s.desc(bytes<C>(e) + " of " + nm<E>());
            for(auto& q : vals) if(q.second)
            {
                ref::spec p; if(al[0] == '*') { p.fill = '*'; p.align = '>'; p.width = 15; } else if(al[0]) { p.align = '<'; p.width = 3; } p.prec = pr;
                one(s, q.first, t, e, istr(+static_cast<std::underlying_type_t<E>>(q.first)), [&] { return ref::text(q.second, p); });
            }
        }
    });
}

int main(int argc, char** argv)
{
    integral<signed char>("signed char"); integral<unsigned char>("unsigned char"); integral<short>("short"); integral<unsigned short>("unsigned short");
    integral<int>("int"); integral<unsigned>("unsigned"); integral<long>("long"); integral<unsigned long>("unsigned long"); integral<long long>("long long"); integral<unsigned long long>("unsigned long long");
    if(narrow) { every<signed char>("signed char"); every<unsigned char>("unsigned char"); every<short>("short"); every<unsigned short>("unsigned short"); }
    vk::section("bool", [](vk::S& s)
    {
        grid g; g.types = "sdxXobB"; g.fills += U"0<\U0001F600"; g.widths = {0, 1, 2, 3, 4, 5, 6, 9, 12, 70};
        for(auto& x : specs(g)) for(bool b : {false, true})
        {
            if(!s.next()) continue;
            ref::u32 t = U"{:" + x.text + U"}"; auto e = W<C>(t); s.desc(bytes<C>(e) + (b ? " of true" : " of false"));
            one(s, b, t, e, "bool", [&] { return ref::boolean(b, x.s); });
        }
        for(int pr = 0; pr < 8; ++pr) for(bool b : {false, true})
        {
            if(!s.next()) continue;
            ref::u32 t = U"{:_^7." + ref::A(std::to_string(pr)) + U"s}"; auto e = W<C>(t); s.desc(bytes<C>(e) + (b ? " of true" : " of false"));
            ref::spec p; p.fill = '_'; p.align = '^'; p.width = 7; p.prec = pr; p.type = 's';
            one(s, b, t, e, "bool", [&] { return ref::boolean(b, p); });
        }
    });
    vk::section("characters as numbers", [](vk::S& s)
    {
        grid g; g.types = "cdxXobB"; g.widths = {0, 1, 2, 5, 9, 40};
        std::vector<C> v{C('a'), C(0), C('\n'), C('~'), C(0x7f), C('9')};
        if constexpr(sizeof(C) > 1) { v.push_back(C(0xe9)); v.push_back(C(0x6f22)); v.push_back(C(0xffff)); v.push_back(C(0xff08)); }
        if constexpr(sizeof(C) > 2) { v.push_back(C(0x1f600)); v.push_back(C(0x10ffff)); }
        all(s, specs(g), v, [](C x, const ref::spec& p) { return ref::character(char32_t(x), p); }, [](C x) { return std::to_string((unsigned)x); });
    });
    vk::section("code points", [](vk::S& s)
    {
        grid g; g.types = "cdxXobB"; g.widths = {0, 1, 2, 5, 40};
        std::vector<papilio::utf::codepoint> v; std::vector<char32_t> cs{0, 'a', 0x7f, 0x80, 0x7ff, 0x800, 0x10ff, 0x1100, 0x115f, 0x1160, 0x6f22, 0xffff, 0x10000, 0x1f300, 0x1f64f, 0x1f650, 0x10ffff};
        for(auto& x : specs(g)) for(char32_t c : cs)
        {
            if(!s.next()) continue;
            ref::u32 t = U"{:" + x.text + U"}"; auto e = W<C>(t); s.desc(bytes<C>(e) + " of U+" + std::to_string(c));
            one(s, papilio::utf::codepoint(c), t, e, "code point", [&] { return ref::character(c, x.s); });
        }
    });
    vk::section("pointers", [](vk::S& s)
    {
        grid g; g.types = "pP"; g.widths = {0, 1, 3, 9, 18, 19, 70};
        std::vector<std::uintptr_t> v{0, 1, 9, 10, 0xabc, 0xdeadbeef, 0x7fffffffffff, ~std::uintptr_t(0), std::uintptr_t(1) << 63, 0x123456789abcdef0};
        for(auto& x : specs(g)) for(auto u : v)
        {
            if(!s.next()) continue;
            ref::u32 t = U"{:" + x.text + U"}"; auto e = W<C>(t); s.desc(bytes<C>(e) + " of address " + std::to_string(u));
            auto want = [&] { return ref::pointer(u, x.s); };
            one(s, reinterpret_cast<const void*>(u), t, e, "const void*", want);
            if(s.ok()) one(s, reinterpret_cast<void*>(u), t, e, "void*", want);
            if(s.ok() && !u) one(s, nullptr, t, e, "nullptr", want);
        }
    });
    enums<e8>("e8", {{e8::lo, U"lo"}, {e8::neg, U"neg"}, {e8::zero, U"zero"}, {e8::one, U"one"}, {e8::hi, U"hi"}, {e8(5), nullptr}, {e8(-5), nullptr}});
    enums<eu>("eu", {{PLAIN, U"PLAIN"}, {OTHER, U"OTHER"}, {BIG, nullptr}, {eu(4), nullptr}, {eu(0), nullptr}});
    enums<el>("el", {{el::minll, nullptr}, {el::a, nullptr}, {el::b, U"b"}, {el::c, U"c"}, {el::d, nullptr}, {el::maxll, nullptr}, {el(0), nullptr}});
    enums<eul>("eul", {{eul::z, U"z"}, {eul::top, nullptr}, {eul::m, U"m"}, {eul::n, nullptr}, {eul(1), nullptr}});
    enums<eb>("eb", {{eb::no, U"no"}, {eb::yes, U"yes"}});
    enums<ec>("ec", {{ec::x, U"x"}, {ec::neg, U"neg"}, {ec(1), nullptr}});
    enums<et>("et", {{et::under_score, U"under_score"}, {et::Z9, U"Z9"}, {et(8), nullptr}});
    return vk::main(argc, argv, "C04");
}
