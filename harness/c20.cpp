// C20: calendar times, locale-aware booleans, streamed values, paths and the library's own stream output
#include "world.hpp"
#include <papilio/print.hpp>
#include <papilio/formatter/chrono.hpp>
#include <papilio/formatter/filesystem.hpp>
#include <papilio/formatter/misc.hpp>
#include <bitset>
#include <chrono>
#include <complex>
#include <climits>
#include <ctime>
#include <cwchar>
#include <iomanip>
#include <locale>
#include <sstream>
#include <system_error>
#ifndef CH
#define CH char
#endif
using C = CH;
using str = std::basic_string<C>;
using sv = std::basic_string_view<C>;
using ref::u32; using ref::u32v; using ref::spec;
static constexpr bool streams = std::is_same_v<C, char> || std::is_same_v<C, wchar_t>;

template <typename... A> str fmt(u32v t, const A&... a) { exact<C> e(W<C>(t)); return vfmt<C>(e.view(), papilio::make_format_args<ctx_t<C>>(a...)); }
template <typename... A> str fmt_loc(const std::locale& l, u32v t, const A&... a) { exact<C> e(W<C>(t)); str r; papilio::vformat_to(std::back_inserter(r), l, e.view(), papilio::make_format_args<ctx_t<C>>(a...)); return r; }
template <typename F> std::string outcome(F f) { try { return "text " + bytes<C>(f()); } catch(const papilio::format_error&) { return "format error"; } catch(const std::exception&) { return "another error"; } }
static std::string text(u32v t) { return "text " + bytes<C>(W<C>(t)); }
static u32 num(long long n) { return ref::A(std::to_string(n)); }
static std::string ok(u32v t) { return bytes<C>(W<C>(t)); }

// ---- specifications of padding: as written, and what they mean
struct pads { u32 t; spec s; };
static const std::vector<pads>& padding()
{
    static std::vector<pads> v;
    if(!v.empty()) return v;
    for(u32v f : {u32v(U""), u32v(U"*"), u32v(U"\u6f22"), u32v(U"<"), u32v(U"{"), u32v(U"%"), u32v(U"0"), u32v(U"\U0001F600"), u32v(U"L")}) for(char32_t al : u32v(U"\0<>^", 4))
    {
        if(!al && !f.empty()) continue;
        if(f == U"{") continue;
        for(int w : {0, 1, 2, 3, 7, 20, 24, 25, 26, 40})
        {
            pads p; p.t = f; if(al) p.t += al; if(w) p.t += num(w);
            if(!f.empty()) p.s.fill = f[0];
            p.s.align = char(al); p.s.width = w;
            v.push_back(p);
        }
    }
    return v;
}

// ---- calendar times
static std::vector<std::tm> times()
{
    std::vector<std::tm> r;
    for(long long t : {0LL, -1LL, 951782400LL + 43200, 946684799LL, 1709251199LL, 1672531200LL, 1609459200LL, 1420070399LL, 253402300799LL, 253402300800LL, -2208988800LL, -62135596800LL, -59011459200LL - 86400 * 365, 1325376000LL + 3661, 1704067199LL, 1230768000LL, 1262304000LL - 1, 1388534400LL + 86400 * 59})
    {
        std::time_t x = t; std::tm m{}; gmtime_r(&x, &m); r.push_back(m);
    }
    std::tm leap = r[3]; leap.tm_sec = 60; r.push_back(leap);
    std::tm zero{}; zero.tm_mday = 1; r.push_back(zero);
    return r;
}
static const std::vector<u32>& conversions()
{
    static std::vector<u32> v;
    if(v.empty())
    {
        for(char c : std::string("aAbBcCdDeFgGhHIjmMnpPrRsSTuUVwWxXyYzZ%kl+t")) v.push_back(U"%" + u32(1, char32_t(c)));
        for(char c : std::string("cCxXyY")) v.push_back(U"%E" + u32(1, char32_t(c)));
        for(char c : std::string("deHImMSuUVwWy")) v.push_back(U"%O" + u32(1, char32_t(c)));
    }
    return v;
}
template <typename Ch> std::basic_string<Ch> put(const std::tm& t, const std::basic_string<Ch>& s, const std::locale& l) { std::basic_ostringstream<Ch> o; o.imbue(l); o << std::put_time(&t, s.c_str()); return o.str(); }
static u32 widen(const std::string& s) { return ref::dec<char>(s); }
static u32 c_time(const std::tm& t, u32v sp)
{
    const std::string s = ref::enc<char>(sp); if(s.empty()) return {};
    std::string b(s.size() * 64 + 64, '\0'); b.resize(std::strftime(b.data(), b.size(), (s + "|").c_str(), &t)); b.pop_back();
    return widen(b);
}
struct marked : std::time_put<C>
{
    explicit marked(std::size_t r = 0) : std::time_put<C>(r) {}
    iter_type do_put(iter_type o, std::ios_base&, char_type fill, const std::tm* t, char f, char m) const override { *o++ = C('<'); *o++ = C(f); if(m) *o++ = C(m); *o++ = C('0' + t->tm_mon); (void)fill; *o++ = C('>'); return o; }
};
struct names : std::numpunct<C>
{
    str t, f; std::string g;
    names(u32v a, u32v b, std::string grp = "") : t(W<C>(a)), f(W<C>(b)), g(grp) {}
    str do_truename() const override { return t; }
    str do_falsename() const override { return f; }
    C do_thousands_sep() const override { return C('\''); }
    C do_decimal_point() const override { return C(','); }
    std::string do_grouping() const override { return g; }
};
static u32 default_time(const std::tm& t)
{
    static const char* const wd[] = {"Sun", "Mon", "Tue", "Wed", "Thu", "Fri", "Sat"}; static const char* const mo[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
    char b[200];
    std::snprintf(b, sizeof b, "%s %s %2d %02d:%02d:%02d %4lld", unsigned(t.tm_wday) < 7 ? wd[t.tm_wday] : "???", unsigned(t.tm_mon) < 12 ? mo[t.tm_mon] : "???", t.tm_mday, t.tm_hour, t.tm_min, t.tm_sec, t.tm_year + 1900LL);
    return ref::A(b);
}

// ---- streamed types
struct says { u32 t; };
struct grouped { long n; };
struct rough { int n; };
struct half { int n; };
enum class shade { light, dark };
template <typename Ch> std::basic_ostream<Ch>& operator<<(std::basic_ostream<Ch>& o, const says& s) { auto e = ref::enc<Ch>(s.t); return o.write(e.data(), std::streamsize(e.size())); }
template <typename Ch> std::basic_ostream<Ch>& operator<<(std::basic_ostream<Ch>& o, const grouped& g) { return o << g.n << Ch('/') << std::boolalpha << (g.n > 0) << Ch('/') << 1.5; }
template <typename Ch> std::basic_ostream<Ch>& operator<<(std::basic_ostream<Ch>& o, const rough& g) { return o << std::setw(6) << std::setfill(Ch('.')) << std::hex << std::showbase << g.n << std::setprecision(2) << std::left << std::setw(5) << 3.14159; }
template <typename Ch> std::basic_ostream<Ch>& operator<<(std::basic_ostream<Ch>& o, const half& h) { o << h.n; o.setstate(std::ios_base::failbit); return o << "lost"; }
template <typename T> u32 streamed(const T& t, const std::locale& l = std::locale::classic()) { std::basic_ostringstream<C> o; o.imbue(l); o << t; return ref::dec<C>(sv(o.str())); }

#if !defined(NOSTREAM)
template <typename T> void streamed_type(vk::S& s, const char* name, const std::vector<T>& vals, const std::locale& loc)
{
    for(auto& v : vals)
    {
        const u32 plain = streamed(v), local = streamed(v, loc);
        for(auto& p : padding()) for(int L = 0; L < 2; ++L)
        {
            if(!s.next()) continue;
            const u32 f = p.t + (L ? U"L" : U"");
            s.desc(std::string(name) + " [" + bytes<C>(W<C>(plain)) + "] {:" + bytes<C>(W<C>(f)) + "}"); s.trans();
            const u32 classic = ref::text(plain, p.s), there = ref::text(L ? local : plain, p.s);
            s.eq("without a locale", outcome([&] { return fmt(U"{:" + f + U"}", v); }), text(classic));
            s.eq("with a locale", outcome([&] { return fmt_loc(loc, U"{:" + f + U"}", v); }), text(there));
            const u32 two = U"<{0:" + f + U"}|{1}|{0}>";
            s.eq("among others", outcome([&] { return fmt_loc(loc, two, v, 255); }), text(U"<" + there + U"|255|" + plain + U">"));
            s.state(vk::hash_str(bytes<C>(W<C>(there))));
        }
        for(u32v bad : {u32v(U"x"), u32v(U".3"), u32v(U"s"), u32v(U"?"), u32v(U"+"), u32v(U"#"), u32v(U"08"), u32v(U"LL"), u32v(U"L5"), u32v(U"5.3"), u32v(U"5x"), u32v(U"{"), u32v(U"{0}"), u32v(U"{9}")})
        {
            if(!s.next()) continue;
            s.desc(std::string(name) + " " + ok(bad)); s.trans();
            s.expect(outcome([&] { return fmt(U"{:" + u32(bad) + U"}", v); }).compare(0, 5, "text ") != 0, "accepted");
        }
        if(s.next())
        {
            s.desc(std::string(name) + " truncated");
            for(u32v cut : {u32v(U"{"), u32v(U"{:"), u32v(U"{:*"), u32v(U"{:*<"), u32v(U"{:*<5"), u32v(U"{:5L"), u32v(U"{0:L"), u32v(U"{:{")}) s.expect(outcome([&] { return fmt(cut, v); }).compare(0, 5, "text ") != 0, "accepted ", ok(cut));
        }
    }
}
#endif

int main(int argc, char** argv)
{
    static const std::locale here(std::locale::classic(), new marked), yn(std::locale::classic(), new names(U"\u662f\u7684", U"", "\3"));
    static const auto T = times();
    vk::section("the oracle: strftime and put_time agree", [](vk::S& s)
    {
        for(auto& t : T) for(auto& c : conversions()) { if(!s.next()) continue; s.desc(ok(c)); s.trans(); s.eq("put_time", bytes<C>(put<C>(t, W<C>(c), std::locale::classic())), bytes<C>(W<C>(c_time(t, c)))); }
    });
    auto one = [](vk::S& s, const std::tm& t, u32v sp)
    {
        if(!s.next()) return;
        s.desc(ok(sp)); s.trans();
        const u32 want = c_time(t, sp);
        s.eq("time", outcome([&] { return fmt(U"{:" + u32(sp) + U"}", t); }), text(want));
        s.state(vk::hash_str(bytes<C>(W<C>(want))));
    };
    vk::section("every conversion", [one](vk::S& s)
    {
        for(auto& t : T) for(auto& c : conversions()) { one(s, t, c); one(s, t, c + U" "); one(s, t, c + U":\u5e74" + c); one(s, t, c + U"L" + c + U"<"); }
        for(auto& t : T) for(u32v f : {u32v(U"%Y-%m-%d %H:%M:%S"), u32v(U"%Y\u5e74%m\u6708%d\u65e5"), u32v(U"%A, %d %B %Y"), u32v(U"%FT%TZ"), u32v(U"%I:%M:%S %p"), u32v(U"%G-W%V-%u"), u32v(U"%%Y%%"), u32v(U"%c|%x|%X|%r|%R|%D"), u32v(U"%j day of the year and a long literal text that goes on and on")}) one(s, t, f);
        for(int n : {1, 2, 10, 30, 100, 300}) { u32 f; for(int i = 0; i < n; ++i) f += U"%A"; one(s, T[3], f); }
    });
    vk::section("pairs of conversions", [one](vk::S& s)
    {
        const std::size_t step = vk::thorough() ? 1 : 6;
        for(std::size_t i = 0; i < T.size(); i += step) for(auto& a : conversions()) for(auto& b : conversions()) { one(s, T[i], a + b); if(vk::thorough()) one(s, T[i], a + U"/" + b); }
        if(vk::thorough()) for(auto& a : conversions()) for(auto& b : conversions()) for(auto& c : conversions()) one(s, T[4], a + b + c);
    });
    vk::section("times, padded and with a locale", [](vk::S& s)
    {
        for(auto& p : padding()) for(u32v c : {u32v(U""), u32v(U"%Y"), u32v(U"%A %e"), u32v(U"%Y\u5e74"), u32v(U"%c"), u32v(U"%n")}) for(std::size_t i : {std::size_t(4), std::size_t(10)}) for(int L = 0; L < 2; ++L)
        {
            if(!s.next()) continue;
            const u32 f = p.t + (L ? U"L" : U"") + u32(c);
            s.desc(std::string("{:") + ok(f) + "}"); s.trans();
            const std::tm& t = T[i];
            const u32 plain = c.empty() ? default_time(t) : c_time(t, c), there = L && !c.empty() ? ref::dec<C>(sv(put<C>(t, W<C>(c), here))) : plain;
            s.eq("without a locale", outcome([&] { return fmt(U"{:" + f + U"}", t); }), text(ref::text(plain, p.s)));
            s.eq("with a locale", outcome([&] { return fmt_loc(here, U"{:" + f + U"}", t); }), text(ref::text(there, p.s)));
            const u32 dyn = u32(p.t.begin(), std::find_if(p.t.begin() + (p.s.align && p.t.size() > 1 && (p.t[1] == char32_t(p.s.align)) ? 2 : p.s.align ? 1 : 0), p.t.end(), [](char32_t x) { return x >= '0' && x <= '9'; }));
            if(p.s.width) s.eq("with a dynamic width", outcome([&] { return fmt_loc(here, U"{0:" + dyn + U"{1}" + (L ? U"L" : U"") + u32(c) + U"}", t, int(p.s.width)); }), text(ref::text(there, p.s)));
            s.eq("as an element", outcome([&] { return fmt_loc(here, U"{:n:" + f + U"}", std::vector<std::tm>{t, t}); }), text(ref::text(there, p.s) + U", " + ref::text(there, p.s)));
            s.eq("twice", outcome([&] { return fmt_loc(here, U"{0:" + f + U"}{0:%Y}{0}", t); }), text(ref::text(there, p.s) + c_time(t, U"%Y") + default_time(t)));
            s.state(vk::hash_str(bytes<C>(W<C>(there))));
        }
        for(u32v cut : {u32v(U"{"), u32v(U"{:"), u32v(U"{:%"), u32v(U"{:%Y"), u32v(U"{:*<9%Y"), u32v(U"{:L"), u32v(U"{:5"), u32v(U"{0:{1}%Y"), u32v(U"{0:{1"), u32v(U"{0:{9}%Y}"), u32v(U"{:0%Y}"), u32v(U"{:{0}%Y}")})
        {
            if(!s.next()) continue;
            s.desc(ok(cut)); s.trans();
            s.expect(outcome([&] { return fmt(cut, T[3], 9); }).compare(0, 5, "text ") != 0, "accepted");
        }
    });
    vk::section("the default layout", [](vk::S& s)
    {
        auto go = [&](const std::tm& t)
        {
            if(!s.next()) return;
            s.desc(ok(default_time(t))); s.trans();
            const u32 w = default_time(t);
            s.eq("time", outcome([&] { return fmt(U"{}", t); }), text(w));
            const bool plain = t.tm_wday >= 0 && t.tm_wday < 7 && t.tm_mon >= 0 && t.tm_mon < 12 && t.tm_mday > 0 && t.tm_mday < 32 && t.tm_hour >= 0 && t.tm_hour < 24 && t.tm_min >= 0 && t.tm_min < 60 && t.tm_sec >= 0 && t.tm_sec < 62 && t.tm_year >= -900 && t.tm_year < 8100;
            if(plain) { char b[64]; std::string a = asctime_r(&t, b); a.pop_back(); s.eq("asctime", text(ref::A(a)), text(w)); }
            s.state(vk::hash_str(bytes<C>(W<C>(w))));
        };
        std::tm t = T[4];
        for(int wd : {INT_MIN, -1, 0, 1, 2, 3, 4, 5, 6, 7, 100, INT_MAX}) for(int mo : {INT_MIN, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 255, INT_MAX}) { t.tm_wday = wd; t.tm_mon = mo; go(t); }
        t = T[4];
        for(int d : {0, 1, 9, 10, 31, 99, 100, -1, INT_MIN}) for(int h : {0, 9, 10, 23, 24, 123, -5}) for(int m : {0, 1, 59, 60, -7, INT_MAX}) for(int sc : {0, 5, 59, 60, 61, 600}) for(int y : {INT_MIN, -1900 - 12, -1900, -1899, -901, -900, -1, 0, 70, 124, 8099, 8100, INT_MAX - 1900, INT_MAX}) { t.tm_mday = d; t.tm_hour = h; t.tm_min = m; t.tm_sec = sc; t.tm_year = y; go(t); }
    });
    // ---- booleans
    vk::section("booleans", [](vk::S& s)
    {
        struct pair { u32 t, f; };
        for(auto& n : {pair{U"yes", U"no"}, pair{U"\u662f", U"\u4e0d\u662f"}, pair{U"", U"x"}, pair{U"a name that is quite long, longer than small buffers", U"\U0001F600\U0001F601"}, pair{U"{0}", U"}}"}})
        {
            const std::locale loc(std::locale::classic(), new names(n.t, n.f, "\3"));
            for(auto& p : padding()) for(int L = 0; L < 2; ++L) for(u32v ty : {u32v(U""), u32v(U"s"), u32v(U"d"), u32v(U"x"), u32v(U"b")}) for(int v = 0; v < 2; ++v)
            {
                if(!s.next()) continue;
                const u32 f = p.t + (L ? U"L" : U"") + u32(ty);
                s.desc(std::string(v ? "true" : "false") + " {:" + ok(f) + "}"); s.trans();
                spec sp = p.s; sp.type = ty.empty() ? 0 : char(ty[0]);
                const u32 plain = ref::boolean(v, sp), there = L ? ref::boolean(v, sp, n.t, n.f) : plain;
                s.eq("without a locale", outcome([&] { return fmt(U"{:" + f + U"}", bool(v)); }), text(plain));
                s.eq("with a locale", outcome([&] { return fmt_loc(loc, U"{:" + f + U"}", bool(v)); }), text(there));
                { std::locale old = std::locale::global(loc); auto r = outcome([&] { return fmt(U"{:" + f + U"}", bool(v)); }); std::locale::global(old); s.eq("a global locale does not matter", r, text(plain)); }
                s.eq("several", outcome([&] { return fmt_loc(loc, U"{0:" + f + U"}{0}{1:" + f + U"}", bool(v), !v); }), text(there + ref::boolean(v, {}) + (L ? ref::boolean(!v, sp, n.t, n.f) : ref::boolean(!v, sp))));
                s.eq("as elements", outcome([&] { return fmt_loc(loc, U"{:n:" + f + U"}", std::array<bool, 2>{bool(v), !v}); }), text(there + U", " + (L ? ref::boolean(!v, sp, n.t, n.f) : ref::boolean(!v, sp))));
                if constexpr(std::is_same_v<C, char>)
                {
                    const std::string t8 = ref::enc<char>(U"{:" + f + U"}");
                    std::ostringstream o; o.imbue(loc); const bool b = v; papilio::print(o, std::string_view(t8), b); s.eq("to a stream", "text " + o.str(), text(there));
                }
                s.state(vk::hash_str(bytes<C>(W<C>(there))));
            }
        }
    });
#if !defined(NOSTREAM)
    // ---- streamed types
    vk::section("streamed text", [](vk::S& s)
    {
        std::vector<says> v; const u32 al = U"a{\u00e9\u6f22\U0001F600";
        const int depth = vk::thorough() ? 4 : 3;
        std::vector<u32> level{U""};
        for(int d = 0; d <= depth; ++d) { for(auto& t : level) v.push_back({t}); std::vector<u32> n; for(auto& t : level) for(char32_t c : al) n.push_back(t + c); level = n; }
        v.push_back({u32(5000, U'x')}); v.push_back({u32(24, U'\u6f22')}); v.push_back({U"a streamed text that is long enough to leave every small buffer"});
        streamed_type(s, "text", v, yn);
    });
    vk::section("streamed values", [](vk::S& s)
    {
        streamed_type<grouped>(s, "grouped", {{0}, {-1}, {1234567}, {1000}}, yn);
        streamed_type<rough>(s, "rough", {{0}, {255}, {-1}}, yn);
        streamed_type<half>(s, "half", {{0}, {1234}}, yn);
        streamed_type<std::complex<double>>(s, "complex", {{0, 0}, {1.5, -2500}, {1234567, 0.25}}, yn);
        streamed_type<std::bitset<12>>(s, "bitset", {{0}, {0xabc}}, yn);
        streamed_type<std::error_code>(s, "error code", {{}, std::make_error_code(std::errc::no_space_on_device)}, yn);
        streamed_type<std::chrono::milliseconds>(s, "milliseconds", {std::chrono::milliseconds(0), std::chrono::milliseconds(-12345)}, yn);
        streamed_type<std::chrono::minutes>(s, "minutes", {std::chrono::minutes(90)}, yn);
    });
    vk::section("streamed elements", [](vk::S& s)
    {
        for(int n = 0; n < 4; ++n) for(auto& p : padding()) for(int L = 0; L < 2; ++L)
        {
            if(!s.next()) continue;
            const u32 f = p.t + (L ? U"L" : U"");
            s.desc(std::to_string(n) + " {:n:" + ok(f) + "}"); s.trans();
            std::vector<grouped> v; u32 w;
            for(int i = 0; i < n; ++i) { v.push_back({i * 4321}); if(i) w += U", "; w += ref::text(streamed(v.back(), L ? yn : std::locale::classic()), p.s); }
            s.eq("joined", outcome([&] { return fmt_loc(yn, U"{:" + f + U"}", papilio::join<C>(v)); }), text(w));
        }
    });
    // ---- paths
    vk::section("paths", [](vk::S& s)
    {
        std::vector<std::filesystem::path> v;
        std::vector<u32> level{U""}; const u32 al = U"a/.\" \n\u6f22";
        for(int d = 0; d <= (vk::thorough() ? 5 : 3); ++d) { for(auto& t : level) v.push_back(std::filesystem::path(ref::enc<char>(t))); std::vector<u32> n; for(auto& t : level) for(char32_t c : al) n.push_back(t + c); level = n; }
        v.push_back("/usr/share/a long file name that goes on.tar.gz"); v.push_back("C:\\dir\\file");
        for(auto& p : v)
        {
            const u32 native = ref::dec<char>(p.native()), gen = ref::dec<char>(p.generic_string());
            for(auto& pd : padding()) for(u32v ty : {u32v(U""), u32v(U"g"), u32v(U"?")})
            {
                if(ty == U"?" && !pd.t.empty()) continue; // the escaped form is not claimed to be padded
                if(!s.next()) continue;
                const u32 f = pd.t + u32(ty);
                s.desc(std::string("[") + ok(native) + "] {:" + ok(f) + "}"); s.trans();
                const u32 body = ty == U"?" ? ref::dec<C>(sv(ref::escaped<C>(sv(W<C>(native)), U'"'))) : ty == U"g" ? gen : native;
                s.eq("path", outcome([&] { return fmt(U"{:" + f + U"}", p); }), text(ref::text(body, pd.s)));
                s.state(vk::hash_str(bytes<C>(W<C>(body))));
            }
            if(!s.next()) continue;
            s.desc(std::string("[") + ok(native) + "] among others"); s.trans();
            s.eq("elements", outcome([&] { return fmt(U"{0:n:>5g}|{1}", std::vector<std::filesystem::path>{p, p}, p); }), text(ref::text(gen, [] { spec x; x.align = '>'; x.width = 5; return x; }()) + U", " + ref::text(gen, [] { spec x; x.align = '>'; x.width = 5; return x; }()) + U"|" + native));
        }
        for(u32v bad : {u32v(U"s"), u32v(U"x"), u32v(U"G"), u32v(U"gg"), u32v(U"g?"), u32v(U"5gL")})
        {
            if(!s.next()) continue;
            s.desc(ok(bad)); s.trans();
            s.expect(outcome([&] { return fmt(U"{:" + u32(bad) + U"}", std::filesystem::path("a")); }).compare(0, 5, "text ") != 0, "accepted");
        }
    });
    // ---- stream output of the library's own types
    vk::section("the library's stream output", [](vk::S& s)
    {
        std::vector<u32> level{U""}; const u32 al{U'a', U'\0', U'\u00e9', U'\u6f22', U'\U0001F600', U'"'};
        std::vector<u32> all; for(int d = 0; d <= 3; ++d) { for(auto& t : level) all.push_back(t); std::vector<u32> n; for(auto& t : level) for(char32_t c : al) n.push_back(t + c); level = n; }
        for(auto& t : all)
        {
            if(!s.next()) continue;
            const str x = W<C>(t); s.desc("[" + bytes<C>(x) + "]"); s.trans();
            auto out = [&](const auto& v) { std::basic_ostringstream<C> o; o << v; o << v; return bytes<C>(o.str()); };
            s.eq("string_ref", out(papilio::utf::basic_string_ref<C>(sv(x))), bytes<C>(x + x));
            s.eq("string_container", out(papilio::utf::basic_string_container<C>(sv(x))), bytes<C>(x + x));
            s.eq("owning string_container", out(papilio::utf::basic_string_container<C>(papilio::independent, x)), bytes<C>(x + x));
            str cps; for(char32_t c : t) cps += W<C>(u32(1, c));
            std::basic_ostringstream<C> o; for(papilio::utf::codepoint cp : papilio::utf::basic_string_ref<C>(sv(x))) o << cp; s.eq("code points", bytes<C>(o.str()), bytes<C>(cps));
            std::vector<papilio::utf::codepoint> v; for(auto cp : papilio::utf::basic_string_ref<C>(sv(x))) v.push_back(cp);
            str j; for(std::size_t i = 0; i < t.size(); ++i) { if(i) j += W<C>(U"-\u6f22-"); j += W<C>(u32(1, t[i])); }
            const str sep = W<C>(U"-\u6f22-");
            s.eq("joiner", out(papilio::join<C>(v, sv(sep))), bytes<C>(j + j));
            std::vector<str> vs(t.size(), x); str k; for(std::size_t i = 0; i < vs.size(); ++i) { if(i) k += W<C>(U", "); k += x; }
            s.eq("joiner of strings", out(papilio::join<C>(vs)), bytes<C>(k + k));
            s.state(vk::hash_str(bytes<C>(x)));
        }
        for(int n = 0; n < 40; ++n)
        {
            if(!s.next()) continue;
            s.desc("script error " + std::to_string(n)); s.trans();
            const auto ec = papilio::script_error_code(n);
            std::basic_ostringstream<C> o; o << ec; const std::string a = papilio::to_string(ec);
            s.eq("script error code", bytes<C>(o.str()), bytes<C>(W<C>(ref::A(a))));
            s.expect(!a.empty(), "no text");
        }
        std::vector<std::thread::id> ids{std::thread::id(), std::this_thread::get_id()};
        for(auto& id : ids)
        {
            if(!s.next()) continue;
            s.desc("thread id"); s.trans();
            s.eq("thread id", outcome([&] { return fmt(U"<{0}{0}>", id); }), text(U"<" + streamed(id) + streamed(id) + U">"));
        }
    });
#endif
    return vk::main(argc, argv, "C20");
}
