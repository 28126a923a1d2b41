// C10: UTF encoding, decoding and scanning
#include <papilio/utf/utf.hpp>
#include <memory>
#include <iostream>
#include <sstream>
#include "vk.hpp"
#include "ref.hpp"
namespace utf = papilio::utf;
using papilio::reverse_index;
using papilio::index_range;
using utf::strlen_behavior;
using utf::substr_behavior;
template <typename C> using sv_t = std::basic_string_view<C>;

// units as text for messages
template <typename C> static std::string show(sv_t<C> s)
{
    std::string r; char b[16];
    for(C c : s) { std::snprintf(b, sizeof b, "%s%x", r.empty() ? "" : " ", unsigned(std::make_unsigned_t<std::conditional_t<sizeof(C) == 1, char, std::conditional_t<sizeof(C) == 2, short, int>>>(c))); r += b; }
    return r;
}
template <typename C> struct heap // exactly these units, nothing readable behind them
{
    std::unique_ptr<C[]> p; std::size_t n;
    explicit heap(sv_t<C> s) : p(s.empty() ? nullptr : new C[s.size()]), n(s.size()) { std::copy(s.begin(), s.end(), p.get()); }
    sv_t<C> view() const { return {p.get(), n}; }
};
#define EXP(cond, ...) do { if(!(cond)) { s.expect(false, __VA_ARGS__); return; } } while(0)

template <typename C> static const char* cname()
{
    return std::is_same_v<C, char> ? "char" : std::is_same_v<C, char8_t> ? "char8_t" : std::is_same_v<C, char16_t> ? "char16_t" : std::is_same_v<C, char32_t> ? "char32_t" : "wchar_t";
}

// one text of C, everything the scanning interface says about it
template <typename C, template <typename...> typename STR> static void scan(vk::S& s, sv_t<C> v, const std::vector<ref::unit>& u, const char* form)
{
    using T = STR<C>;
    const T t(v);
    const std::size_t n = u.size();
    auto value = [&](std::size_t i) { return u[i].ok ? u[i].cp : sizeof(C) == 2 ? char32_t(std::uint16_t(v[u[i].off])) : U'\xFFFFFFFF'; };
    auto same = [&](char32_t got, std::size_t i) { return value(i) == U'\xFFFFFFFF' || got == value(i); };
    EXP(t.length() == n, form, ": length ", t.length(), " expected ", n);
    EXP(t.size() == v.size() && t.empty() == v.empty(), form, ": size");
    EXP(sv_t<C>(t) == v && t.to_string_view() == v, form, ": text changed");
    for(std::size_t i = 0; i < n + 3; ++i)
    {
        std::size_t o = i < n ? u[i].off : utf::npos, ro = i < n ? u[n - 1 - i].off : utf::npos;
        EXP(t.get_offset(i) == o, form, ": offset of ", i, " is ", t.get_offset(i));
        EXP(t.get_offset(reverse_index, i) == ro, form, ": reverse offset of ", i, " is ", t.get_offset(reverse_index, i));
        const utf::codepoint dflt(U'\u2603');
        if(i < n)
        {
            EXP(same(char32_t(t.at(i)), i), form, ": at ", i, " is ", std::uint32_t(char32_t(t.at(i))));
            EXP(same(char32_t(t.at(reverse_index, i)), n - 1 - i), form, ": reverse at ", i);
            EXP(same(char32_t(t.index_or(i, dflt)), i) && same(char32_t(t.index_or(reverse_index, i, dflt)), n - 1 - i), form, ": index_or ", i);
            EXP(same(char32_t(t[i]), i) && same(char32_t(t.index(i)), i) && same(char32_t(t.index(reverse_index, i)), n - 1 - i), form, ": index ", i);
        }
        else
        {
            for(int r = 0; r < 2; ++r)
            {
                bool threw = false;
                try { r ? t.at(reverse_index, i) : t.at(i); } catch(const std::out_of_range&) { threw = true; }
                EXP(threw, form, ": at past the end");
            }
            EXP(t.index_or(i, dflt) == dflt && t.index_or(reverse_index, i, dflt) == dflt, form, ": index_or past the end");
        }
        s.trans(7);
    }
    if(n) EXP(same(char32_t(t.front()), 0) && same(char32_t(t.back()), n - 1), form, ": front or back");
    // forward
    const C* base = t.data();
    std::size_t i = 0;
    for(auto it = t.begin(); it != t.end(); ++it, ++i)
    {
        EXP(i < n, form, ": iteration does not end");
        EXP(std::size_t(it.base() - base) == u[i].off && it.size() == u[i].len, form, ": iterator ", i, " at ", it.base() - base, " length ", int(it.size()));
        EXP(same(char32_t(utf::codepoint(*it)), i) && same(char32_t(*it), i) && &*it == it.base(), form, ": iterator value ", i);
    }
    EXP(i == n, form, ": iteration stops after ", i);
    // backward
    auto it = t.end();
    for(i = n; i-- > 0;)
    {
        auto old = it--;
        EXP(it < old && old > it && it != old && it <= old, form, ": iterator order");
        EXP(std::size_t(it.base() - base) == u[i].off && it.size() == u[i].len, form, ": backwards ", i, " at ", it.base() - base, " length ", int(it.size()));
        EXP(same(char32_t(*it), i), form, ": backwards value ", i);
    }
    EXP(it == t.begin() && it.base() == base, form, ": backwards does not reach the beginning");
    i = n;
    for(auto r = t.rbegin(); r != t.rend(); ++r) { EXP(i > 0, form, ": reverse iteration does not end"); --i; EXP(same(char32_t(*r), i), form, ": reverse iterator value"); }
    EXP(i == 0, form, ": reverse iteration stops early");
    // arithmetic
    for(std::size_t a = 0; a <= n; ++a)
        for(std::size_t b = 0; b <= n; ++b)
        {
            auto x = t.begin() + std::ptrdiff_t(a), y = t.end() - std::ptrdiff_t(n - b);
            EXP(x - y == std::ptrdiff_t(a) - std::ptrdiff_t(b), form, ": difference of ", a, " and ", b, " is ", x - y);
            EXP((x == y) == (a == b) && (x < y) == (a < b), form, ": comparison of ", a, " and ", b);
            x += std::ptrdiff_t(b) - std::ptrdiff_t(a);
            EXP(x == y, form, ": += from ", a, " to ", b);
            x -= std::ptrdiff_t(b) - std::ptrdiff_t(a);
            EXP(x == std::ptrdiff_t(a) + t.begin(), form, ": -= from ", b, " to ", a);
            auto z = t.begin(); swap(z, y); EXP(y == t.begin() && std::size_t(z.base() - base) == (b < n ? u[b].off : v.size()), form, ": swap");
            s.trans(5);
        }
    // substrings
    auto at = [&](std::size_t k) { return k < n ? u[k].off : v.size(); };
    for(std::size_t p = 0; p < n + 3; ++p)
        for(std::size_t c = 0; c < n + 3; ++c)
        {
            std::size_t cnt = c == n + 2 ? utf::npos : c;
            std::size_t m = p > n ? 0 : std::min(cnt, n - p);
            sv_t<C> want = p > n ? sv_t<C>() : v.substr(at(p), at(p + m) - at(p));
            bool threw = false;
            try
            {
                auto r = t.substr(p, cnt); auto e = t.substr_extended(p, cnt);
                EXP(sv_t<C>(r) == want, form, ": substr ", p, " ", cnt, " is ", show<C>(r));
                EXP(sv_t<C>(e.first) == want && e.second == m, form, ": substr_extended ", p, " ", cnt);
            }
            catch(const std::out_of_range&) { threw = true; }
            EXP(threw == (p > n), form, ": substr ", p, " throws");
            auto r = t.template substr<substr_behavior::empty_string>(p, cnt);
            EXP(sv_t<C>(r) == want, form, ": quiet substr ", p, " ", cnt);
            s.trans(3);
        }
    const auto N = papilio::ssize_t(n);
    for(papilio::ssize_t a = -N - 2; a <= N + 2; ++a)
        for(papilio::ssize_t b = -N - 2; b <= N + 3; ++b)
        {
            papilio::ssize_t e = b == N + 3 ? index_range::npos : b;
            bool bad = a > N || a < -N || (e != index_range::npos && (e > N || e < -N));
            auto clamp = [&](papilio::ssize_t k) { return k >= 0 ? std::min(k, N) : std::max<papilio::ssize_t>(k + N, 0); };
            auto lo = clamp(a), hi = e == index_range::npos ? N : clamp(e);
            sv_t<C> want = lo < hi ? v.substr(at(lo), at(hi) - at(lo)) : sv_t<C>();
            bool threw = false;
            try { auto r = t.substr(index_range(a, e)); EXP(bad || sv_t<C>(r) == want, form, ": slice ", a, ":", b, " is ", show<C>(r)); }
            catch(const std::out_of_range&) { threw = true; }
            EXP(threw == bad, form, ": slice ", a, ":", b, threw ? " throws" : " does not throw");
            auto r = t.template substr<substr_behavior::empty_string>(index_range(a, e));
            EXP(sv_t<C>(r) == want, form, ": quiet slice ", a, ":", b, " is ", show<C>(r));
            s.trans(2);
        }
}

template <typename C, strlen_behavior B> static void lengths(vk::S& s, sv_t<C> v, const std::vector<ref::unit>& u)
{
    std::size_t want = 0; bool thr = false; std::uint32_t bad = 0;
    for(auto& x : u)
    {
        if(x.ok || B == strlen_behavior::replace) { ++want; continue; }
        if(B == strlen_behavior::stop) break;
        if(B == strlen_behavior::exception) { thr = true; bad = std::uint32_t(v[x.off]) & (sizeof(C) == 1 ? 0xffu : 0xffffu); break; }
    }
    auto run = [&](const char* how, std::size_t w, bool t, auto f)
    {
        s.trans();
        try { std::size_t got = f(); EXP(!t, how, ": no exception"); EXP(got == w, how, "<", int(B), "> is ", got, " expected ", w); }
        catch(const utf::invalid_byte& e) { EXP(t && sizeof(C) == 1 && e.get() == bad, how, ": invalid_byte ", int(e.get())); }
        catch(const utf::invalid_surrogate& e) { EXP(t && sizeof(C) == 2 && e.get() == bad, how, ": invalid_surrogate ", int(e.get())); }
    };
    run("strlen(view)", want, thr, [&] { return utf::strlen<B>(v); });
    if(!s.ok()) return;
    // bounded and terminated forms end at the first null unit
    if(v.data() && v.find(C(0)) == v.npos)
    {
        run("strlen(pointer, count)", want, thr, [&] { return utf::strlen<B>(v.data(), v.size()); });
        std::basic_string<C> z(v); heap<C> h(sv_t<C>(z.c_str(), z.size() + 1));
        if(s.ok()) run("strlen(pointer)", want, thr, [&] { return utf::strlen<B>(h.p.get()); });
        if(s.ok()) run("strlen(pointer, more)", want, thr, [&] { return utf::strlen<B>(h.p.get(), z.size() + 100); });
    }
}
template <typename C, typename To> static void convert(vk::S& s, sv_t<C> v, const std::vector<ref::unit>& u, bool well)
{
    s.trans();
    utf::basic_string_ref<C> r(v);
    std::basic_string<To> got;
    bool valid = true; for(auto& x : u) valid = valid && x.ok && x.cp < 0x110000 && (x.cp < 0xD800 || x.cp > 0xDFFF);
    try { got = r.template to_string<To>(); }
    catch(const std::invalid_argument&) { EXP(!valid, "conversion to ", cname<To>(), " throws"); return; }
    if(sizeof(To) == sizeof(C)) { EXP(got.size() == v.size() && std::equal(got.begin(), got.end(), v.begin(), [](To a, C b) { return To(b) == a; }), "same-size conversion to ", cname<To>()); return; }
    if(well && valid) { ref::u32 d; for(auto& x : u) d += x.cp; EXP(got == ref::enc<To>(d), "conversion to ", cname<To>(), " gives ", show<To>(got)); }
    else if(sizeof(To) == 4) EXP(got.size() == u.size(), "conversion to ", cname<To>(), ": number of code points");
}
// iterators and references of a container that can be written through
template <typename C> static void mutable_scan(vk::S& s, sv_t<C> v, const std::vector<ref::unit>& u)
{
    utf::basic_string_container<C> t(v);
    std::size_t i = 0;
    auto b = t.begin(), e = t.end();
    for(auto it = b; it != e; ++it, ++i)
    {
        EXP(i < u.size() && std::size_t(it.to_address() - t.data()) == u[i].off, "mutable iterator ", i);
        if(u[i].ok) EXP(char32_t(*it) == u[i].cp && char32_t(t[i]) == u[i].cp && char32_t(t.index(i)) == u[i].cp && char32_t(t.index(reverse_index, u.size() - 1 - i)) == u[i].cp, "mutable value ", i);
        else { (void)char32_t(*it); (void)char32_t(t[i]); }
        utf::codepoint_iterator<C> c = it; EXP(c.base() == it.to_address() && c.size() == u[i].len, "conversion of iterator ", i);
        s.trans();
    }
    EXP(i == u.size(), "mutable iteration stops after ", i);
    auto it = e;
    while(i > 0) { --i; it--; EXP(std::size_t(it.to_address() - t.data()) == u[i].off, "mutable iterator backwards ", i); s.trans(); }
    EXP(it == b, "mutable iteration backwards");
    EXP(!t.has_ownership() && t.to_string_view() == v, "reading took ownership");
    i = u.size();
    for(auto r = t.rbegin(); r != t.rend(); ++r) { --i; if(u[i].ok) EXP(char32_t(*r) == u[i].cp, "mutable reverse value ", i); }
}
template <typename C> static void text(vk::S& s, sv_t<C> src, bool full = true)
{
    s.desc(std::string(cname<C>()) + " [" + show<C>(src) + "]");
    heap<C> h(src); sv_t<C> v = h.view();
    auto u = ref::segment<C>(v);
    bool well = true; for(auto& x : u) well = well && x.ok;
    vk::u64 hash = sizeof(C); for(auto& x : u) hash = hash * 31 + x.len * 2 + x.ok; s.state(hash);
    if(v.size() == 3) s.sample(std::string(cname<C>()) + " [" + show<C>(v) + "] has " + std::to_string(u.size()) + " units");
    lengths<C, strlen_behavior::replace>(s, v, u); if(!s.ok()) return;
    lengths<C, strlen_behavior::ignore>(s, v, u); if(!s.ok()) return;
    lengths<C, strlen_behavior::stop>(s, v, u); if(!s.ok()) return;
    lengths<C, strlen_behavior::exception>(s, v, u); if(!s.ok()) return;
    for(std::size_t i = 0; i < u.size() + 3; ++i)
    {
        std::size_t n = u.size(), o = i < n ? u[i].off : utf::npos, ro = i < n ? u[n - 1 - i].off : utf::npos;
        EXP(utf::index_offset(i, v.data(), v.size()) == o && utf::index_offset(i, v) == o, "index_offset ", i);
        EXP(utf::index_offset(reverse_index, i, v.data(), v.size()) == ro && utf::index_offset(reverse_index, i, v) == ro, "reverse index_offset ", i);
    }
    EXP(utf::index_offset(utf::npos, v) == utf::npos && utf::index_offset(reverse_index, utf::npos, v) == utf::npos, "index_offset npos");
    if(full)
    {
        scan<C, utf::basic_string_ref>(s, v, u, "string_ref"); if(!s.ok()) return;
        scan<C, utf::basic_string_container>(s, v, u, "string_container"); if(!s.ok()) return;
        mutable_scan<C>(s, v, u); if(!s.ok()) return;
    }
    // decoders consume exactly one unit from the front
    if(!v.empty())
    {
        try
        {
            auto [cp, len] = utf::decoder<C>::to_codepoint(v);
            EXP(len == u[0].len, "decoder consumes ", int(len));
            if(u[0].ok) EXP(char32_t(cp) == u[0].cp, "decoder value");
        }
        catch(const utf::invalid_surrogate&) { EXP(sizeof(C) == 2 && !u[0].ok, "decoder throws"); }
    }
    else EXP(utf::decoder<C>::to_codepoint(v).second == 0, "decoder of nothing");
    convert<C, char>(s, v, u, well); if(!s.ok()) return;
    convert<C, char8_t>(s, v, u, well); if(!s.ok()) return;
    convert<C, char16_t>(s, v, u, well); if(!s.ok()) return;
    convert<C, char32_t>(s, v, u, well); if(!s.ok()) return;
    convert<C, wchar_t>(s, v, u, well);
}
// comparison of two well-formed texts, in every pair of encodings, is comparison of their code points
template <typename A, typename B> static void compare2(vk::S& s, const ref::u32& x, const ref::u32& y)
{
    auto a = ref::enc<A>(x); auto b = ref::enc<B>(y);
    int want = x < y ? -1 : x == y ? 0 : 1;
    utf::basic_string_ref<A> ra(a); utf::basic_string_ref<B> rb(b);
    utf::basic_string_container<A> ca(a); utf::basic_string_container<B> cb(b);
    auto o = want <=> 0;
    EXP(ra.compare(rb) == want && ra.compare(b.c_str()) == want && ra.compare(sv_t<B>(b)) == want && ra.compare(b) == want, "string_ref::compare ", cname<A>(), " with ", cname<B>());
    EXP(ca.compare(rb) == want && ca.compare(cb) == want && ca.compare(b.c_str()) == want && ca.compare(sv_t<B>(b)) == want && ca.compare(b) == want, "string_container::compare ", cname<A>(), " with ", cname<B>());
    EXP((ra == rb) == (want == 0) && (ca == cb) == (want == 0) && (ca == rb) == (want == 0) && (ra == cb) == (want == 0), "== ", cname<A>(), " with ", cname<B>());
    EXP((ra == b.c_str()) == (want == 0) && (a.c_str() == rb) == (want == 0) && (ra == sv_t<B>(b)) == (want == 0) && (sv_t<A>(a) == rb) == (want == 0) && (ra == b) == (want == 0) && (a == rb) == (want == 0), "string_ref == text ", cname<A>(), " with ", cname<B>());
    EXP((ca == b.c_str()) == (want == 0) && (a.c_str() == cb) == (want == 0) && (ca == sv_t<B>(b)) == (want == 0) && (sv_t<A>(a) == cb) == (want == 0) && (ca == b) == (want == 0) && (a == cb) == (want == 0), "string_container == text ", cname<A>(), " with ", cname<B>());
    EXP((ra <=> rb) == o && (ca <=> cb) == o && (ra <=> sv_t<B>(b)) == o && (ca <=> sv_t<B>(b)) == o && (ra <=> b) == o && (ca <=> b) == o && (ra <=> b.c_str()) == o && (ca <=> b.c_str()) == o, "<=> ", cname<A>(), " with ", cname<B>());
    EXP((sv_t<A>(a) <=> rb) == o && (sv_t<A>(a) <=> cb) == o && (a <=> rb) == o && (a <=> cb) == o && (a.c_str() <=> rb) == o && (a.c_str() <=> cb) == o, "text <=> ", cname<A>(), " with ", cname<B>());
    s.trans(30);
}
template <typename A> static void compare1(vk::S& s, const ref::u32& x, const ref::u32& y)
{
    compare2<A, char>(s, x, y); if(!s.ok()) return;
    compare2<A, char8_t>(s, x, y); if(!s.ok()) return;
    compare2<A, char16_t>(s, x, y); if(!s.ok()) return;
    compare2<A, char32_t>(s, x, y); if(!s.ok()) return;
    compare2<A, wchar_t>(s, x, y);
}
template <typename C> static void enc1(vk::S& s, char32_t c, utf::codepoint cp, bool full)
{
    auto w = ref::enc<C>(ref::u32(1, c));
    std::basic_string<C> o{C('<')}; cp.append_to(o); EXP(o == C('<') + w, "append_to ", cname<C>(), " gives ", show<C>(o));
    C buf[8] = {}; auto e = cp.append_to_as<C>(buf); EXP(std::size_t(e - buf) == w.size() && std::equal(w.begin(), w.end(), buf), "append_to_as ", cname<C>());
    std::basic_string<C> r{C('1'), C('2'), C('3')}; cp.replace(r, 1, 1); EXP(r == C('1') + w + C('3'), "replace ", cname<C>());
    auto [d, len] = utf::decoder<C>::to_codepoint(sv_t<C>(w)); EXP(char32_t(d) == c && len == w.size() && d == cp, "decoder<", cname<C>(), ">");
    auto trail = w + C('x'); auto p = utf::decoder<C>::to_codepoint(sv_t<C>(trail)); EXP(char32_t(p.first) == c && p.second == w.size(), "decoder<", cname<C>(), "> with more text");
    EXP(utf::strlen(sv_t<C>(trail)) == 2 && utf::strlen<strlen_behavior::exception>(sv_t<C>(trail)) == 2 && utf::strlen<strlen_behavior::ignore>(sv_t<C>(trail)) == 2 && utf::strlen<strlen_behavior::stop>(sv_t<C>(trail)) == 2, "strlen ", cname<C>());
    s.trans(6); if(!full) return;
    utf::basic_string_ref<C> rf(trail); auto it = rf.begin(); EXP(char32_t(*it) == c && char32_t(*++it) == U'x' && char32_t(*--it) == c && ++it != rf.end() && ++it == rf.end(), "iterators ", cname<C>());
    EXP(rf.get_offset(1) == w.size() && rf.get_offset(reverse_index, 1) == 0, "offset ", cname<C>());
    ref::u32 x{c, U'x'};
    EXP(rf.to_u8string() == ref::enc<char8_t>(x) && rf.to_u16string() == ref::enc<char16_t>(x) && rf.to_u32string() == x && rf.to_wstring() == ref::enc<wchar_t>(x) && rf.to_string() == ref::enc<char>(x), "conversion from ", cname<C>());
    utf::basic_string_container<C> k(2, cp); EXP(k.to_string_view() == w + w && k.has_ownership(), "filled ", cname<C>());
    k.push_back(cp); k.push_back(C('z')); EXP(k.length() == 4 && k.to_string_view() == w + w + w + C('z'), "push_back ", cname<C>());
    EXP(k.contains(cp) && k.starts_with(cp) && k.find(cp) == std::as_const(k).begin() && (c == U'z' || rf.contains(U'z') == false), "searching ", cname<C>());
    EXP(c == U'x' || (rf.starts_with(cp) && !rf.ends_with(cp) && rf.ends_with(utf::codepoint(U'x'))), "starts/ends ", cname<C>());
    s.trans(10);
}
template <typename Ch> static std::vector<Ch> alphabet()
{
    if constexpr(sizeof(Ch) == 1) return {Ch('a'), Ch(0x80), Ch(0xC3), Ch(0xE6), Ch(0xF0), Ch(0xF8), Ch(0), Ch(0xBF), Ch(0xC1), Ch(0xED), Ch(0xF4), Ch(0xFF)};
    else if constexpr(sizeof(Ch) == 2) return {Ch('a'), Ch(0xD83D), Ch(0xDE00), Ch(0x6f22), Ch(0xDBFF), Ch(0xDC00), Ch(0), Ch(0xE000), Ch(0xD800), Ch(0xDFFF), Ch(0xFFFF)};
    else return {Ch('a'), Ch(0xe9), Ch(0x6f22), Ch(0x1F600), Ch(0), Ch(0xD800), Ch(0x10FFFF), Ch(0xFFFF)};
}
template <typename C> static void texts(const char* name, unsigned K, unsigned len, unsigned kt, unsigned lt)
{
    vk::section(std::string("every sequence: ") + name, [=](vk::S& s)
    {
        auto al = alphabet<C>();
        if(s.enter(0, vk::S::owner(0))) { s.desc("empty"); text<C>(s, sv_t<C>()); }
        vk::token_tree(s, std::min<unsigned>(unsigned(al.size()), vk::thorough() ? kt : K), vk::thorough() ? lt : len, 2, [&](const std::vector<int>& ix, bool run)
        {
            if(!run) return true;
            std::basic_string<C> v; for(int i : ix) v += al[i];
            text<C>(s, v, vk::thorough() || !std::is_same_v<C, char8_t> || v.size() < 4);
            return true;
        });
    });
}
int main(int argc, char** argv)
{
    vk::section("every code point", [](vk::S& s)
    {
        for(char32_t b = 0; b < 0x110000; b += 64)
        {
            if(b >= 0xD800 && b < 0xE000) continue;
            if(!s.next()) continue;
            for(char32_t c = b; c < b + 64 && s.ok(); ++c)
            {
                char d[40]; std::snprintf(d, sizeof d, "code point U+%04X", unsigned(c)); s.desc(d);
                auto w8 = ref::enc<char8_t>(ref::u32(1, c));
                [&]
                {
                    utf::codepoint cp(c);
                    EXP(std::u8string_view(cp) == w8 && cp.size_bytes() == w8.size(), "UTF-8 form ", show<char8_t>(std::u8string_view(cp)));
                    EXP(std::string_view(cp) == ref::enc<char>(ref::u32(1, c)), "narrow form");
                    EXP(char32_t(cp) == c && cp == c && c == cp && !(cp != utf::codepoint(c)), "value");
                    EXP(utf::decoder<char32_t>::size_bytes(c) == w8.size() && utf::decoder<char8_t>::size_bytes(w8[0]) == w8.size() && utf::decoder<char>::size_bytes(char(w8[0])) == w8.size() && utf::byte_count(w8[0]) == w8.size(), "size_bytes");
                    auto fc = utf::decoder<char32_t>::from_codepoint(cp); EXP(fc.first == c && fc.second == w8.size(), "from_codepoint");
                    auto w16 = ref::enc<char16_t>(ref::u32(1, c)); auto f16 = utf::decoder<char16_t>::from_codepoint(cp);
                    EXP(f16.get() == w16 && f16.processed_size == w8.size() && std::u16string_view(f16) == w16, "UTF-16 form ", show<char16_t>(f16.get()));
                    auto fw = utf::decoder<wchar_t>::from_codepoint(cp); EXP(fw.get() == ref::enc<wchar_t>(ref::u32(1, c)), "wide form");
                    auto t16 = utf::decoder<char16_t>::to_char32_t(w16); EXP(t16.first == c && t16.second == w16.size(), "UTF-16 to char32_t");
                    auto q = utf::decoder<char16_t>::to_codepoint(w16[0], w16.size() > 1 ? w16[1] : u'\0'); EXP(char32_t(q.first) == c && q.second == w16.size(), "UTF-16 pair");
                    auto ar = cp.as_array(); EXP(ar.second == w8.size() && std::equal(w8.begin(), w8.end(), ar.first.begin()), "as_array");
                    utf::codepoint o(w8.data(), std::uint8_t(w8.size())), p; p.clear(); EXP(o == cp && p.empty() && !p && (c == 0) == cp.empty() && bool(cp) == (c != 0), "from bytes");
                    switch(w8.size()) { case 1: p.assign(w8[0]); break; case 2: p.assign(w8[0], w8[1]); break; case 3: p.assign(w8[0], w8[1], w8[2]); break; default: p.assign(w8[0], w8[1], w8[2], w8[3]); }
                    EXP(p == cp && std::u8string_view(p) == w8, "assign"); p.assign(U'z').assign(c); EXP(p == cp, "assign char32_t");
                    std::array<char8_t, 4> four{}; std::copy(w8.begin(), w8.end(), four.begin()); p.assign(std::span<const char8_t, 4>(four)); EXP(p == cp && utf::codepoint(std::span<char8_t, 4>(four)) == cp, "from span");
                    EXP(cp.estimate_width() == std::size_t(ref::width(c)), "width ", cp.estimate_width());
                    EXP(cp.is_digit() == (c >= U'0' && c <= U'9') && utf::is_whitespace(c) == (c == U' ' || (c >= 9 && c <= 13)), "class");
                    for(char32_t k : {char32_t(c - 1), char32_t(c + 1), char32_t(0x7f), char32_t(0x7ff), char32_t(0xffff), char32_t(0x10000)})
                        if(k < 0x110000 && !(k >= 0xD800 && k < 0xE000)) EXP((cp <=> utf::codepoint(k)) == (c <=> k) && (cp <=> k) == (c <=> k) && (k <=> cp) == (k <=> c) && (cp == utf::codepoint(k)) == (c == k), "order against ", std::uint32_t(k));
                    std::ostringstream os; os << cp; EXP(os.str() == std::string_view(cp), "operator<<");
                    std::wostringstream ws; cp.append_to(ws); EXP(ws.str() == ref::enc<wchar_t>(ref::u32(1, c)), "wide operator<<");
                    s.trans(24);
                }();
                if(!s.ok()) break;
                utf::codepoint cp(c); bool full = vk::thorough() || c < 0x900 || (c & 0xf) == 0xf || (c & 0x7ff) < 4 || ref::width(c) != ref::width(c + 1);
                if(full) enc1<char>(s, c, cp, full); if(!s.ok()) break;
                enc1<char8_t>(s, c, cp, full); if(!s.ok()) break;
                enc1<char16_t>(s, c, cp, full); if(!s.ok()) break;
                if(full) enc1<char32_t>(s, c, cp, full); if(!s.ok()) break;
                if(full) enc1<wchar_t>(s, c, cp, full);
            }
            s.state(0xC0DE0000u + b);
        }
    });
    vk::section("surrogates and values beyond Unicode", [](vk::S& s)
    {
        std::vector<char32_t> v; for(char32_t c = 0xD800; c < 0xE000; ++c) v.push_back(c);
        for(std::uint32_t c : {0x110000u, 0x110001u, 0x1FFFFFu, 0x200000u, 0x3FFFFFFu, 0x4000000u, 0x7FFFFFFFu, 0x80000000u, 0xFFFFFFFFu}) v.push_back(char32_t(c));
        for(char32_t c : v)
        {
            if(!s.next()) continue;
            char d[40]; std::snprintf(d, sizeof d, "value 0x%X", unsigned(c)); s.desc(d);
            utf::codepoint cp(c); s.trans();
            std::string o; cp.append_to(o); s.expect(o.size() >= 1 && o.size() <= 4, "narrow form");
            std::u32string w; cp.append_to(w); s.expect(w.size() == 1, "UTF-32 form"); if(c < 0x110000) s.expect(w[0] == c, "UTF-32 value");
            bool threw = false; std::u16string x = u"ab"; try { cp.append_to(x); } catch(const std::invalid_argument&) { threw = true; }
            if(c < 0x200000) s.expect(threw && x == u"ab", "UTF-16 form of something that is not a scalar value");
            s.expect(cp.estimate_width() >= 1, "width");
        }
    });
    vk::section("comparison across encodings", [](vk::S& s)
    {
        std::vector<char32_t> al = {U'a', U'b', U'\x7f', U'\x80', U'\u07ff', U'\u0800', U'\ud7ff', U'\ue000', U'\uffff', U'\U00010000', U'\U0010ffff', U'\x1'};
        std::vector<ref::u32> t{U""};
        for(std::size_t b = 0, e = 1, l = 0; l < (vk::thorough() ? 2u : 2u); ++l) { for(std::size_t i = b; i < e; ++i) for(char32_t c : al) t.push_back(t[i] + c); b = e; e = t.size(); }
        if(vk::thorough()) for(char32_t a : {U'a', U'\uffff', U'\U00010000'}) for(char32_t b : {U'a', U'\uffff', U'\U00010000'}) for(char32_t c : al) t.push_back(ref::u32{a, b, c});
        for(auto& x : t)
        {
            if(!s.next()) continue;
            for(auto& y : t)
            {
                s.desc("[" + show<char32_t>(x) + "] with [" + show<char32_t>(y) + "]");
                compare1<char>(s, x, y); if(!s.ok()) break;
                compare1<char8_t>(s, x, y); if(!s.ok()) break;
                compare1<char16_t>(s, x, y); if(!s.ok()) break;
                compare1<char32_t>(s, x, y); if(!s.ok()) break;
                compare1<wchar_t>(s, x, y); if(!s.ok()) break;
            }
        }
    });
    texts<char>("char", 6, 5, 9, 6);
    texts<char8_t>("char8_t", 12, 4, 7, 7);
    texts<char16_t>("char16_t", 6, 5, 11, 6);
    texts<char32_t>("char32_t", 5, 4, 8, 5);
    texts<wchar_t>("wchar_t", 5, 4, 8, 5);
    // every lead byte against every kind of continuation; every pair of UTF-16 units from the boundaries
    vk::section("all bytes", [](vk::S& s)
    {
        for(unsigned a = 0; a < 256; ++a)
        {
            if(!s.next()) continue;
            text<char>(s, std::string{char(a)});
            for(unsigned b = 0; b < 256 && s.ok(); ++b) { text<char>(s, std::string{char(a), char(b)}, vk::thorough()); if(!s.ok()) break; }
            for(unsigned b : {0x41u, 0x80u, 0xbfu, 0xc0u, 0xf0u}) for(unsigned c : {0x41u, 0x80u, 0xbfu, 0xe0u}) for(unsigned d : {0x41u, 0x80u, 0xbfu}) for(unsigned e : {0x41u, 0x80u}) { if(!s.ok()) break; text<char8_t>(s, std::u8string{char8_t(a), char8_t(b), char8_t(c), char8_t(d), char8_t(e)}, vk::thorough()); }
        }
    });
    vk::section("all UTF-16 units", [](vk::S& s)
    {
        std::vector<char16_t> p{u'a', u'\uD7FF', char16_t(0xD800), char16_t(0xDBFF), char16_t(0xDC00), char16_t(0xDFFF), u'\uE000', u'\uFFFF'};
        for(unsigned a = 0; a < 0x10000; a += 16)
        {
            if(!s.next()) continue;
            for(unsigned k = 0; k < 16 && s.ok(); ++k)
            {
                text<char16_t>(s, std::u16string{char16_t(a + k)}, false);
                for(char16_t b : p) { if(!s.ok()) break; text<char16_t>(s, std::u16string{char16_t(a + k), b}, false); if(!s.ok()) break; text<char16_t>(s, std::u16string{b, char16_t(a + k)}, false); }
            }
        }
    });
    vk::section("long texts", [](vk::S& s)
    {
        for(char32_t c : {U'a', U'\u00e9', U'\u6f22', U'\U0001F600'}) for(std::size_t n : {7u, 15u, 16u, 23u, 24u, 31u, 64u})
        {
            if(!s.next()) continue;
            ref::u32 t(n, c); t += U"z";
            text<char>(s, ref::enc<char>(t)); if(s.ok()) text<char16_t>(s, ref::enc<char16_t>(t)); if(s.ok()) text<char32_t>(s, ref::enc<char32_t>(t));
            if(s.ok()) { auto x = ref::enc<char>(t); x.resize(x.size() - 2); text<char>(s, x); }
        }
    });
    return vk::main(argc, argv, "C10");
}
