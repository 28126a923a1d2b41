// ref.hpp - independent reference models of the documented behaviour:
// UTF segmentation, display width, specification parsing, number and text
// rendering, and the template language.  Nothing here includes the library.
#pragma once
#include <charconv>
#include <cmath>
#include <cstdint>
#include <limits>
#include <map>
#include <optional>
#include <string>
#include <string_view>
#include <vector>

namespace ref
{
using u32 = std::u32string;
using u32v = std::u32string_view;
struct error { const char* what; };                 // a reported (exceptional) outcome
struct unspecified { const char* what; };           // outside the stated behaviour

// ---- encodings -----------------------------------------------------------
template <typename C> std::basic_string<C> enc(u32v s)
{
    std::basic_string<C> r;
    for(char32_t c : s)
    {
        if constexpr(sizeof(C) == 4) r += C(c);
        else if constexpr(sizeof(C) == 2)
        {
            if(c < 0x10000) r += C(c);
            else { c -= 0x10000; r += C(0xD800 + (c >> 10)); r += C(0xDC00 + (c & 0x3ff)); }
        }
        else
        {
            if(c < 0x80) r += C(c);
            else if(c < 0x800) { r += C(0xC0 | (c >> 6)); r += C(0x80 | (c & 63)); }
            else if(c < 0x10000) { r += C(0xE0 | (c >> 12)); r += C(0x80 | ((c >> 6) & 63)); r += C(0x80 | (c & 63)); }
            else { r += C(0xF0 | (c >> 18)); r += C(0x80 | ((c >> 12) & 63)); r += C(0x80 | ((c >> 6) & 63)); r += C(0x80 | (c & 63)); }
        }
    }
    return r;
}
// segmentation into units: start offset, length, decoded value (valid only if ok)
struct unit { std::size_t off, len; bool ok; char32_t cp; };
template <typename C> std::vector<unit> segment(std::basic_string_view<C> s)
{
    std::vector<unit> v;
    for(std::size_t i = 0; i < s.size();)
    {
        if constexpr(sizeof(C) == 4) { v.push_back({i, 1, true, char32_t(s[i])}); ++i; }
        else if constexpr(sizeof(C) == 2)
        {
            std::uint16_t a = std::uint16_t(s[i]);
            if((a & 0xFC00) == 0xD800 && i + 1 < s.size() && (std::uint16_t(s[i + 1]) & 0xFC00) == 0xDC00)
            {
                v.push_back({i, 2, true, char32_t(0x10000 + ((a & 0x3ff) << 10) + (std::uint16_t(s[i + 1]) & 0x3ff))});
                i += 2;
            }
            else { v.push_back({i, 1, (a & 0xF800) != 0xD800, char32_t(a)}); ++i; }
        }
        else
        {
            std::uint8_t a = std::uint8_t(s[i]);
            std::size_t need = a < 0x80 ? 1 : a < 0xC0 ? 0 : a < 0xE0 ? 2 : a < 0xF0 ? 3 : a < 0xF8 ? 4 : 0;
            if(need <= 1) { v.push_back({i, 1, need == 1, char32_t(a)}); ++i; continue; }
            std::size_t k = 1;
            char32_t cp = a & (0xFF >> (need + 1));
            while(k < need && i + k < s.size() && (std::uint8_t(s[i + k]) & 0xC0) == 0x80) { cp = cp << 6 | (std::uint8_t(s[i + k]) & 63); ++k; }
            v.push_back({i, k, k == need, cp});
            i += k;
        }
    }
    return v;
}
template <typename C> u32 dec(std::basic_string_view<C> s)
{
    u32 r;
    for(auto& u : segment(s)) { if(!u.ok) throw unspecified{"ill-formed text"}; r += u.cp; }
    return r;
}
inline u32 A(std::string_view s) { return u32(s.begin(), s.end()); }

// ---- display width (doc/en/builtin_formatter.md) ----------------------------
inline int width(char32_t c)
{
    static const char32_t t[][2] = {{0x1100, 0x115F}, {0x2329, 0x232A}, {0x2E80, 0x303E}, {0x3040, 0xA4CF}, {0xAC00, 0xD7A3}, {0xF900, 0xFAFF}, {0xFE10, 0xFE19}, {0xFE30, 0xFE6F}, {0xFF00, 0xFF60}, {0xFFE0, 0xFFE6}, {0x1F300, 0x1F64F}, {0x1F900, 0x1F9FF}, {0x20000, 0x2FFFD}, {0x30000, 0x3FFFD}};
    for(auto& r : t) if(c >= r[0] && c <= r[1]) return 2;
    return 1;
}
inline std::size_t width(u32v s) { std::size_t n = 0; for(char32_t c : s) n += width(c); return n; }

// ---- specification -----------------------------------------------------------
struct spec
{
    char32_t fill = U' '; char align = 0, sign = 0; bool alt = false, zero = false;
    std::size_t width = 0; long prec = -1; bool L = false; char type = 0;
};
inline u32 pad(u32v body, std::size_t w, const spec& s, char dflt)
{
    char a = s.align ? s.align : dflt;
    std::size_t n = s.width > w ? s.width - w : 0;
    std::size_t l = a == '<' ? 0 : a == '>' ? n : n / 2;
    u32 r(l, s.fill); r += body; r.append(n - l, s.fill);
    return r;
}
inline u32 pad(u32v body, const spec& s, char dflt) { return pad(body, width(body), s, dflt); }

// sign and magnitude as digits
inline u32 fmt_num(bool neg, u32 prefix, u32 digits, const spec& s, bool allow_zero = true)
{
    u32 sg;
    if(neg) sg = U"-"; else if(s.sign == '+') sg = U"+"; else if(s.sign == ' ') sg = U" ";
    if(s.zero && !s.align && allow_zero)
    {
        std::size_t used = sg.size() + prefix.size() + digits.size();
        return sg + prefix + u32(s.width > used ? s.width - used : 0, U'0') + digits;
    }
    return pad(sg + prefix + digits, s, '>');
}
inline u32 text(u32v s, const spec& sp, char dflt = '<')
{
    std::size_t used = 0, i = 0;
    for(; i < s.size(); ++i)
    {
        std::size_t w = width(s[i]);
        if(sp.prec >= 0 && used + w > std::size_t(sp.prec)) break;
        used += w;
    }
    return pad(s.substr(0, i), used, sp, dflt);
}
inline u32 integer(bool neg, unsigned __int128 mag, const spec& s)
{
    char t = s.type ? s.type : 'd';
    if(t == 'c')
    {
        if((neg && mag != 0) || mag > 0x10FFFF) throw error{"not a code point"};
        spec p = s; p.prec = -1;
        return pad(u32(1, char32_t(mag)), p, '<');
    }
    int base = t == 'd' ? 10 : t == 'o' ? 8 : (t == 'b' || t == 'B') ? 2 : 16;
    u32 d;
    do { int k = int(mag % base); d.insert(d.begin(), U"0123456789abcdef"[k]); mag /= base; } while(mag);
    if(t == 'X') for(auto& c : d) if(c >= U'a') c -= 32;
    u32 p;
    if(s.alt) p = t == 'x' ? U"0x" : t == 'X' ? U"0X" : t == 'b' ? U"0b" : t == 'B' ? U"0B" : t == 'o' ? U"0" : U"";
    return fmt_num(neg, p, d, s);
}
template <typename I> u32 integer(I v, const spec& s)
{
    bool neg = v < 0;
    unsigned __int128 m = neg ? -static_cast<unsigned __int128>(static_cast<__int128>(v)) : static_cast<unsigned __int128>(v);
    return integer(neg, m, s);
}
inline u32 boolean(bool v, const spec& s, u32v tn = U"true", u32v fn = U"false")
{
    if(s.type && s.type != 's') return integer(int(v), s);
    return text(v ? tn : fn, s);
}
inline u32 character(char32_t c, const spec& s)
{
    if(s.type && s.type != 'c' && s.type != '?') return integer((long long)c, s);
    if(s.type == '?') throw unspecified{"escaped"};
    spec p = s; p.prec = -1;
    return pad(u32(1, c), p, '<');
}
inline u32 pointer(std::uintptr_t v, const spec& s)
{
    spec p = s; p.type = s.type == 'P' ? 'X' : 'x'; p.alt = true;
    return integer((unsigned long long)v, p);
}
template <typename F> std::string float_digits(F v, char type, long prec)
{
    if(std::isnan(v)) return type >= 'A' && type <= 'Z' ? "NAN" : "nan";
    if(std::isinf(v)) return type >= 'A' && type <= 'Z' ? "INF" : "inf";
    static thread_local std::vector<char> buf(40000);
    std::chars_format f{};
    switch(type | 32)
    {
    case 'f': f = std::chars_format::fixed; break;
    case 'e': f = std::chars_format::scientific; break;
    case 'a': f = std::chars_format::hex; break;
    default: f = std::chars_format::general;
    }
    if(type && (type | 32) != 'a' && prec < 0) prec = 6;
    if(prec + 8000 > long(buf.size())) buf.resize(prec + 8000);
    auto r = prec < 0 ? std::to_chars(buf.data(), buf.data() + buf.size(), v, f)
                      : std::to_chars(buf.data(), buf.data() + buf.size(), v, f, int(prec));
    std::string s(buf.data(), r.ptr);
    if(type >= 'A' && type <= 'Z') for(char& c : s) if(c >= 'a' && c <= 'z') c -= 32;
    return s;
}
template <typename F> u32 floating(F v, const spec& s)
{
    bool neg = std::signbit(v);
    return fmt_num(neg, U"", A(float_digits(std::abs(v), s.type, s.prec)), s, std::isfinite(v));
}

// ---- escaping -------------------------------------------------------------------
template <typename C> std::basic_string<C> escaped(std::basic_string_view<C> s, char32_t quote)
{
    std::basic_string<C> r;
    auto put = [&](std::string_view t) { for(char c : t) r += C(c); };
    auto hex = [&](char k, std::uint32_t v) { char b[24]; auto e = std::to_chars(b, b + 24, v, 16).ptr; put("\\"); r += C(k); put("{"); put({b, e}); put("}"); };
    for(auto& u : segment(s))
    {
        if(!u.ok)
        {
            for(std::size_t i = 0; i < u.len; ++i) hex('x', std::uint32_t(s[u.off + i]) & (sizeof(C) == 1 ? 0xFFu : sizeof(C) == 2 ? 0xFFFFu : ~0u));
            continue;
        }
        if(u.len == 1 && u.cp == U'\t') put("\\t");
        else if(u.len == 1 && u.cp == U'\n') put("\\n");
        else if(u.len == 1 && u.cp == U'\r') put("\\r");
        else if(u.len == 1 && u.cp == U'\\') put("\\\\");
        else if(u.len == 1 && u.cp == quote) { put("\\"); r += C(quote); }
        else if(u.len == 1 && u.cp < 0x20) hex('u', u.cp);
        else r.append(s.substr(u.off, u.len));
    }
    return r;
}

// ---- values and templates -----------------------------------------------------------
struct val
{
    enum kind { NUL, BOOL, CP, INT, FLT, DBL, LDBL, STR, PTR, VEC, MAPI, MAPS, TUP, PAIR, OBJ } k = NUL;
    __int128 i = 0;             // INT BOOL CP PTR
    double d = 0; float f = 0; long double ld = 0;
    u32 s;                      // STR, OBJ name
    std::vector<val> e;         // VEC TUP PAIR
    std::map<long long, val> mi;
    std::map<u32, val> ms;
    std::size_t code_units = 0; // STR: size in the encoding under test
    static val of(long long x) { val v; v.k = INT; v.i = x; return v; }
    static val ofu(unsigned long long x) { val v; v.k = INT; v.i = x; return v; }
    static val ofb(bool x) { val v; v.k = BOOL; v.i = x; return v; }
    static val ofc(char32_t x) { val v; v.k = CP; v.i = x; return v; }
    static val ofd(double x) { val v; v.k = DBL; v.d = x; return v; }
    static val off(float x) { val v; v.k = FLT; v.f = x; return v; }
    static val ofs(u32 x) { val v; v.k = STR; v.s = std::move(x); return v; }
    static val ofp(std::uintptr_t x) { val v; v.k = PTR; v.i = x; return v; }
    static val ofv(kind k, std::vector<val> x) { val v; v.k = k; v.e = std::move(x); return v; }
};

struct index { enum { I, R, S } k = I; long long a = 0, b = std::numeric_limits<long long>::max(); u32 s; };
constexpr long long NPOS = std::numeric_limits<long long>::max();

template <typename C> struct interp
{
    u32v t; std::size_t p = 0;
    const std::vector<val>* pos; const std::map<u32, val>* named;
    bool manual = false; std::size_t next = 0;
    u32 out;
    std::vector<std::string> effects; // observable calls of OBJ formatters

    [[noreturn]] static void bad(const char* w) { throw error{w}; }
    bool end() const { return p >= t.size(); }
    char32_t cur() const { if(end()) bad("end of template"); return t[p]; }
    static bool digit(char32_t c) { return c >= U'0' && c <= U'9'; }
    static bool name_ch(char32_t c, bool first) { return (digit(c) && !first) || (c >= U'a' && c <= U'z') || (c >= U'A' && c <= U'Z') || c == U'_' || c >= 128; }
    void ws() { while(!end() && (t[p] == U' ' || (t[p] >= 9 && t[p] <= 13))) ++p; }

    static std::size_t usize(u32v s) { return enc<C>(s).size(); }

    long long integer_lit()
    {
        bool neg = false;
        if(cur() == U'-') { neg = true; ++p; }
        if(end() || !digit(t[p])) bad("integer");
        __int128 v = 0;
        while(!end() && digit(t[p]))
        {
            v = v * 10 + (t[p] - U'0'); ++p;
            if(v > (__int128(1) << 64)) v = __int128(1) << 64;
        }
        if(neg) v = -v;
        if(v > std::numeric_limits<long long>::max() || v < std::numeric_limits<long long>::min()) bad("overflow");
        return (long long)v;
    }
    u32 string_lit() // after the opening quote
    {
        u32 r;
        for(;;)
        {
            char32_t c = cur(); ++p;
            if(c == U'\'') return r;
            if(c == U'\\') { c = cur(); ++p; r += c == U'n' ? U'\n' : c == U't' ? U'\t' : c; }
            else r += c;
        }
    }
    val get(const index& ix, const val& v)
    {
        auto nth = [&](std::size_t n, long long i) -> std::optional<std::size_t>
        {
            if(i < 0) { if((unsigned long long)(-(i + 1)) >= n) return {}; return n - 1 - std::size_t(-(i + 1)); }
            if((unsigned long long)i >= n) return {};
            return std::size_t(i);
        };
        auto range = [&](std::size_t n) -> std::pair<std::size_t, std::size_t>
        {
            __int128 a = ix.a, b = ix.b;
            if(a < 0) a += n;
            if(ix.b == NPOS) b = n; else if(b < 0) b += n;
            if(a < 0) a = 0;
            if(b > (__int128)n) b = n;
            if(a >= b) return {0, 0};
            return {std::size_t(a), std::size_t(b)};
        };
        switch(v.k)
        {
        case val::STR:
            if(ix.k == index::I) { auto n = nth(v.s.size(), ix.a); return val::ofc(n ? v.s[*n] : U'\0'); }
            if(ix.k == index::R) { auto [a, b] = range(v.s.size()); return val::ofs(v.s.substr(a, b - a)); }
            bad("string index of string");
        case val::VEC:
            if(ix.k == index::I) { auto n = nth(v.e.size(), ix.a); return n ? v.e[*n] : val(); }
            if(ix.k == index::R)
            {
                auto [a, b] = range(v.e.size());
                if(a == b) return val();
                return val::ofv(val::VEC, std::vector<val>(v.e.begin() + a, v.e.begin() + b));
            }
            bad("string index of range");
        case val::TUP: case val::PAIR:
            if(ix.k == index::I) { auto n = nth(v.e.size(), ix.a); return n ? v.e[*n] : val(); }
            bad("index of tuple");
        case val::MAPI:
            if(ix.k == index::I) { auto it = v.mi.find(ix.a); return it == v.mi.end() ? val() : it->second; }
            bad("index of map");
        case val::MAPS:
            if(ix.k == index::S) { auto it = v.ms.find(ix.s); return it == v.ms.end() ? val() : it->second; }
            bad("index of map");
        case val::OBJ:
            if(ix.k == index::I) return val::of(ix.a * 10);
            if(ix.k == index::R) return val::ofs(U"R");
            return val::ofs(ix.s);
        default: bad("index unavailable");
        }
    }
    val attr(u32v a, const val& v)
    {
        switch(v.k)
        {
        case val::STR:
            if(a == U"length") return val::ofu(v.s.size());
            if(a == U"size") return val::ofu(usize(v.s));
            bad("attribute");
        case val::VEC: if(a == U"size") return val::ofu(v.e.size()); bad("attribute");
        case val::TUP: if(a == U"size") return val::ofu(v.e.size()); if(v.e.size() == 2 && (a == U"first" || a == U"second")) throw unspecified{"tuple of two"}; bad("attribute");
        case val::PAIR: if(a == U"size") return val::ofu(2); if(a == U"first") return v.e[0]; if(a == U"second") return v.e[1]; bad("attribute");
        case val::MAPI:
            if(a == U"size") return val::ofu(v.mi.size());
            if(a == U"min") return v.mi.empty() ? val() : v.mi.begin()->second;
            if(a == U"max") return v.mi.empty() ? val() : v.mi.rbegin()->second;
            bad("attribute");
        case val::MAPS:
            if(a == U"size") return val::ofu(v.ms.size());
            if(a == U"min") return v.ms.empty() ? val() : v.ms.begin()->second;
            if(a == U"max") return v.ms.empty() ? val() : v.ms.rbegin()->second;
            bad("attribute");
        case val::OBJ:
            if(a == U"x") return val::ofs(v.s + U".x");
            if(a == U"self") return v;
            bad("attribute");
        default: bad("attribute");
        }
    }
    val access()
    {
        char32_t c = cur();
        val v;
        if(digit(c))
        {
            unsigned __int128 n = 0;
            while(!end() && digit(t[p])) { n = n * 10 + (t[p] - U'0'); if(n > (unsigned __int128)1 << 64) n = (unsigned __int128)1 << 64; ++p; }
            manual = true;
            if(n >= pos->size()) bad("argument index");
            v = (*pos)[std::size_t(n)];
        }
        else if(name_ch(c, true))
        {
            std::size_t b = p;
            while(!end() && name_ch(t[p], false)) ++p;
            auto it = named->find(u32(t.substr(b, p - b)));
            if(it == named->end()) bad("argument name");
            v = it->second;
        }
        else if(c == U'}' || c == U':' || c == U'.' || c == U'[')
        {
            if(manual) bad("numbering");
            std::size_t n = next++;
            if(n >= pos->size()) bad("argument index");
            v = (*pos)[n];
        }
        else bad("field name");
        while(!end())
        {
            if(t[p] == U'.')
            {
                ++p;
                std::size_t b = p;
                while(!end() && name_ch(t[p], p == b)) ++p;
                if(p == b) bad("attribute name");
                v = attr(t.substr(b, p - b), v);
            }
            else if(t[p] == U'[')
            {
                ++p;
                index ix;
                char32_t c = cur();
                if(c == U'\'') { ++p; ix.k = index::S; ix.s = string_lit(); }
                else
                {
                    bool have = c == U'-' || digit(c);
                    if(have) ix.a = integer_lit();
                    else if(c != U':') bad("index");
                    if(!end() && t[p] == U':')
                    {
                        ++p; ix.k = index::R;
                        c = cur();
                        if(c == U'-' || digit(c)) ix.b = integer_lit();
                    }
                }
                if(cur() != U']') bad("index");
                ++p;
                v = get(ix, v);
            }
            else break;
        }
        return v;
    }
    bool is_align(char32_t c) { return c == U'<' || c == U'>' || c == U'^'; }
    std::size_t number(bool precision)
    {
        char32_t c = cur();
        if(c == U'{')
        {
            ++p;
            val v = access();
            if(cur() != U'}') bad("dynamic width");
            ++p;
            if(v.k != val::INT) bad("dynamic width type");
            if(v.i < (precision ? 0 : 1) || v.i > std::numeric_limits<int>::max()) bad("dynamic width value");
            return std::size_t(v.i);
        }
        if(!digit(c) || (!precision && c == U'0')) bad("number");
        unsigned long long n = 0;
        while(!end() && digit(t[p])) { n = n * 10 + (t[p] - U'0'); ++p; if(n > (unsigned long long)std::numeric_limits<int>::max()) bad("number too big"); }
        return std::size_t(n);
    }
    // standard specification, up to but not including the closing brace
    spec parse_std(std::string_view types)
    {
        spec s;
        auto stop = [&] { return end() || t[p] == U'}'; };
        if(stop()) return s;
        if(p + 1 < t.size() && is_align(t[p + 1])) { s.fill = t[p]; s.align = char(t[p + 1]); p += 2; }
        else if(is_align(t[p])) { s.align = char(t[p]); ++p; }
        // an alignment may be given twice: the grammar accepts [fill align][align]
        if(!stop() && s.align && is_align(t[p])) throw unspecified{"two alignments"};
        if(stop()) return s;
        if(t[p] == U'+' || t[p] == U'-' || t[p] == U' ') { s.sign = char(t[p]); ++p; }
        if(stop()) return s;
        if(t[p] == U'#') { s.alt = true; ++p; }
        if(stop()) return s;
        if(t[p] == U'0') { s.zero = true; ++p; }
        if(stop()) return s;
        if(digit(t[p]) || t[p] == U'{') s.width = number(false);
        if(stop()) return s;
        if(t[p] == U'.') { ++p; s.prec = long(number(true)); }
        if(stop()) return s;
        if(t[p] == U'L') { s.L = true; ++p; }
        if(stop()) return s;
        if(t[p] < 128 && types.find(char(t[p])) != types.npos) { s.type = char(t[p]); ++p; }
        else bad("specification");
        return s;
    }
    u32 plain(const val& v) // element rendering without specification
    {
        spec s;
        switch(v.k)
        {
        case val::BOOL: return boolean(v.i != 0, s);
        case val::CP: return character(char32_t(v.i), s);
        case val::INT: return integer_of(v, s);
        case val::FLT: return floating(v.f, s);
        case val::DBL: return floating(v.d, s);
        case val::LDBL: return floating(v.ld, s);
        default: throw unspecified{"nested element"};
        }
    }
    static u32 integer_of(const val& v, const spec& s)
    {
        bool neg = v.i < 0;
        return integer(neg, neg ? (unsigned __int128)(-v.i) : (unsigned __int128)v.i, s);
    }
    // parses the specification for v and renders it (render == false: only parses)
    void format(const val& v, bool render)
    {
        u32 r;
        switch(v.k)
        {
        case val::NUL: bad("null value");
        case val::BOOL: { spec s = parse_std("sXxBbod"); if(s.L && render) throw unspecified{"L"}; if(render) r = boolean(v.i != 0, s); break; }
        case val::CP: { spec s = parse_std("XxBbodc?"); if(render) { if(s.type == '?') { auto c = u32(1, char32_t(v.i)); r = escaped<char32_t>(c, U'\''); } else r = character(char32_t(v.i), s); } break; }
        case val::INT: { spec s = parse_std("XxBbodc"); if(render) r = integer_of(v, s); break; }
        case val::FLT: { spec s = parse_std("fFgGeEaA"); if(render) r = floating(v.f, s); break; }
        case val::DBL: { spec s = parse_std("fFgGeEaA"); if(render) r = floating(v.d, s); break; }
        case val::LDBL: { spec s = parse_std("fFgGeEaA"); if(render) r = floating(v.ld, s); break; }
        case val::STR: { spec s = parse_std("s?"); if(render) { if(s.type == '?') r = escaped<char32_t>(v.s, U'"'); else r = text(v.s, s); } break; }
        case val::PTR: { spec s = parse_std("pP"); if(s.L) bad("L"); if(render) r = pointer(std::uintptr_t(v.i), s); break; }
        case val::VEC:
            if(!end() && t[p] != U'}')
            {
                char32_t c = t[p];
                if(c == U'n' || c == U'm' || c == U's' || c == U'?' || c == U':') throw unspecified{"range specification"};
                return; // not a range specification: the caller reports the missing brace
            }
            if(render)
            {
                r = U"[";
                for(std::size_t i = 0; i < v.e.size(); ++i) { if(i) r += U", "; r += plain(v.e[i]); }
                r += U"]";
            }
            break;
        case val::OBJ: // takes its specification literally, up to the closing brace
        {
            std::size_t b = p;
            while(!end() && t[p] != U'}') ++p;
            if(render)
            {
                u32 sp(t.substr(b, p - b));
                std::string e; for(char32_t c : sp) e += char(c < 128 ? c : '?');
                effects.push_back(e);
                if(sp == U"bad") bad("object refuses");
                r = U"<" + v.s + U"|" + sp + U">";
            }
            break;
        }
        default: throw unspecified{"composite"};
        }
        if(render) out += r;
    }
    void field(bool render) // after '{', up to and including '}'
    {
        val v = access();
        if(cur() == U':') ++p;
        else if(cur() != U'}') bad("brace");
        format(v, render);
        if(cur() != U'}') bad("brace");
        ++p;
    }

    struct var { enum { B, I, F, S } k; bool b = false; long long i = 0; float f = 0; u32 s; };
    var to_var(const val& v)
    {
        var r{};
        switch(v.k)
        {
        case val::BOOL: r.k = var::B; r.b = v.i != 0; return r;
        case val::INT: r.k = var::I; if(v.i > std::numeric_limits<long long>::max()) throw unspecified{"uint64 in a condition"}; r.i = (long long)v.i; return r;
        case val::FLT: r.k = var::F; r.f = v.f; return r;
        case val::DBL: r.k = var::F; r.f = float(v.d); return r;
        case val::CP: r.k = var::S; r.s = u32(1, char32_t(v.i)); return r;
        case val::STR: r.k = var::S; r.s = v.s; return r;
        default: bad("condition operand");
        }
    }
    var operand()
    {
        char32_t c = cur();
        if(c == U'{')
        {
            ++p;
            val v = access();
            if(cur() != U'}') bad("brace");
            ++p;
            return to_var(v);
        }
        var r{};
        if(c == U'\'') { ++p; r.k = var::S; r.s = string_lit(); return r; }
        if(c == U'-' || digit(c) || c == U'.')
        {
            std::size_t b = p, q = p + (c == U'-');
            while(q < t.size() && digit(t[q])) ++q;
            if(q < t.size() && t[q] == U'.')
            {
                ++q;
                while(q < t.size() && digit(t[q])) ++q;
                std::string n; bool any = false;
                for(std::size_t i = b; i < q; ++i) { n += char(t[i]); any |= digit(t[i]); }
                if(!any) bad("number");
                p = q; r.k = var::F;
                auto x = std::from_chars(n.data(), n.data() + n.size(), r.f);
                if(x.ec != std::errc()) bad("float out of range");
                return r;
            }
            r.k = var::I; r.i = integer_lit(); return r;
        }
        bad("operand");
    }
    static bool truth(const var& v) { return v.k == var::B ? v.b : v.k == var::I ? v.i != 0 : v.k == var::F ? v.f != 0 : !v.s.empty(); }
    // -1 less, 0 equal, 1 greater, 2 unordered; near: equality only up to the tolerance
    static bool compare(u32v op, const var& a, const var& b)
    {
        if((a.k == var::S) != (b.k == var::S)) return op == U"!=";
        if(a.k == var::S)
        {
            // code unit order of the encoding under test equals code point order except in UTF-16
            if constexpr(sizeof(C) == 2)
            {
                auto x = enc<C>(a.s), y = enc<C>(b.s);
                bool beyond = false;
                for(char32_t c : a.s + b.s) beyond |= c >= 0xD800;
                if(beyond && op != U"==" && op != U"!=") throw unspecified{"utf-16 order"};
            }
            int c = a.s < b.s ? -1 : a.s > b.s;
            return rel(op, c);
        }
        if(a.k == var::F || b.k == var::F)
        {
            float x = a.k == var::F ? a.f : a.k == var::I ? float(a.i) : float(a.b);
            float y = b.k == var::F ? b.f : b.k == var::I ? float(b.i) : float(b.b);
            bool eq = x == y || std::abs(x - y) < std::numeric_limits<float>::epsilon();
            if(op == U"==" || op == U"=") return eq;
            if(op == U"!=") return !eq;
            return op == U"<" ? x < y : op == U"<=" ? x <= y : op == U">" ? x > y : x >= y;
        }
        long long x = a.k == var::I ? a.i : a.b, y = b.k == var::I ? b.i : b.b;
        return rel(op, x < y ? -1 : x > y);
    }
    static bool rel(u32v op, int c)
    {
        if(op == U"==") return c == 0;
        if(op == U"!=") return c != 0;
        if(op == U"<") return c < 0;
        if(op == U"<=") return c <= 0;
        if(op == U">") return c > 0;
        return c >= 0;
    }
    bool condition()
    {
        ws();
        bool r;
        if(cur() == U'!') { ++p; ws(); r = !truth(operand()); ws(); }
        else
        {
            var a = operand();
            ws();
            char32_t c = cur();
            if(c == U'?') r = truth(a);
            else
            {
                u32 op;
                if(c == U'=' || c == U'!' || c == U'<' || c == U'>')
                {
                    op += c; ++p;
                    if(c == U'=' || c == U'!') { if(cur() != U'=') bad("operator"); op += U'='; ++p; }
                    else if(!end() && t[p] == U'=') { op += U'='; ++p; }
                }
                else bad("condition");
                ws();
                var b = operand();
                ws();
                r = compare(op, a, b);
            }
        }
        if(cur() != U'?') bad("condition end");
        ++p;
        return r;
    }
    void branch(bool render)
    {
        ws();
        char32_t c = cur();
        ++p;
        if(c == U'\'') { u32 s = string_lit(); if(render) out += s; }
        else if(c == U'{') field(render);
        else bad("branch");
        ws();
    }
    void script() // after "{$"
    {
        bool done = false, c = condition();
        branch(c); done = c;
        while(!end() && t[p] == U':')
        {
            ++p; ws();
            if(!end() && t[p] == U'$')
            {
                ++p;
                c = condition();
                branch(!done && c); done |= c;
            }
            else { branch(!done); done = true; }
        }
        if(cur() != U'}') bad("brace");
        ++p;
    }
    void run()
    {
        while(!end())
        {
            char32_t c = t[p++];
            if(c == U'}') { if(cur() != U'}') bad("brace"); ++p; out += U'}'; }
            else if(c == U'{')
            {
                c = cur();
                if(c == U'{') { ++p; out += U'{'; }
                else if(c == U'$') { ++p; script(); }
                else field(true);
            }
            else out += c;
        }
    }
};

// outcome of a template: text, reported error, or outside the stated behaviour
struct outcome { enum { TEXT, ERROR, UNSPEC } k = TEXT; u32 text; std::string why; u32 partial; std::vector<std::string> effects; };
template <typename C> outcome run(u32v t, const std::vector<val>& pos, const std::map<u32, val>& named)
{
    interp<C> in; in.t = t; in.pos = &pos; in.named = &named;
    outcome o;
    try { in.run(); o.text = in.out; }
    catch(error& e) { o.k = outcome::ERROR; o.why = e.what; }
    catch(unspecified& e) { o.k = outcome::UNSPEC; o.why = e.what; }
    o.partial = in.out; o.effects = in.effects;
    return o;
}
} // namespace ref
