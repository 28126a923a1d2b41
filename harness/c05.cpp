// C05: floating-point values under every specification
#include "world.hpp"
#ifndef CH
#define CH char
#endif
using C = CH;
using str = std::basic_string<C>;
using sv = std::basic_string_view<C>;
static constexpr bool narrow = std::is_same_v<C, char>;

struct sp { ref::spec s; ref::u32 text; };
static sp mk(char32_t f, char a, char sg, bool z, std::size_t w, long pr, char t)
{
    sp x; auto& s = x.s;
    if(f) { s.fill = f; x.text += f; }
    if(a) { s.align = a; x.text += char32_t(a); }
    if(sg != '0') { s.sign = sg; x.text += char32_t(sg); }
    if(z) { s.zero = true; x.text += U'0'; }
    if(w) { s.width = w; x.text += ref::A(std::to_string(w)); }
    if(pr >= 0) { s.prec = pr; x.text += U"." + ref::A(std::to_string(pr)); }
    if(t) { s.type = t; x.text += char32_t(t); }
    return x;
}
template <typename F> std::string show(F v) { char b[80]; std::snprintf(b, sizeof b, "%La", (long double)v); return b; }
template <typename F> std::string digits_of(F v, char t, long pr) { return ref::float_digits(v, t, pr); }
template <typename F> void one(vk::S& s, F v, const str& enc, const sp& x)
{
    s.trans();
    auto w = W<C>(ref::floating(v, x.s));
    str got; std::string what; bool threw = false;
    try { got = vfmt<C>(sv(enc), papilio::make_format_args<ctx_t<C>>(v)); } catch(const std::exception& e) { threw = true; what = e.what(); }
    if(!s.ok()) return;
    if(threw) return s.fail(show(v) + ": expected [" + bytes<C>(w).substr(0, 300) + "], got exception " + what);
    if(got != w) return s.fail(show(v) + ": expected [" + bytes<C>(w).substr(0, 300) + "], got [" + bytes<C>(got).substr(0, 300) + "]");
    // default output of a finite value reads back as the same value
    if(narrow && !x.s.type && x.s.prec < 0 && !x.s.width && !x.s.align && x.s.sign != '+' && x.s.sign != ' ' && std::isfinite(v))
    {
        std::string b = bytes<C>(got); F r{};
        auto q = std::from_chars(b.data(), b.data() + b.size(), r);
        if(q.ec != std::errc() || q.ptr != b.data() + b.size() || r != v || std::signbit(r) != std::signbit(v)) s.fail(show(v) + ": [" + b + "] does not read back");
    }
    s.state(vk::hash_str(bytes<C>(got)));
}
template <typename F> void run(vk::S& s, const std::vector<sp>& sps, const std::vector<F>& vals, const char* ty, std::size_t block)
{
    for(std::size_t b = 0; b < vals.size(); b += block) for(auto& x : sps)
    {
        if(!s.next()) continue;
        auto e = W<C>(x.text.empty() ? ref::u32(U"{}") : U"{:" + x.text + U"}");
        s.desc(bytes<C>(e) + " of " + ty + " values from " + show(vals[b]));
        for(std::size_t i = b; i < std::min(b + block, vals.size()) && s.ok(); ++i) one(s, vals[i], e, x);
        s.sample("[" + bytes<C>(e) + "] of " + ty + " " + show(vals[b]));
    }
}
// values at which rounding, exponents and lengths change
template <typename F> std::vector<F> edges(int step)
{
    using L = std::numeric_limits<F>;
    std::vector<F> r; auto add = [&](F v) { r.push_back(v); r.push_back(-v); };
    add(0); add(L::infinity()); add(L::quiet_NaN()); add(L::max()); add(L::min()); add(L::denorm_min()); add(L::lowest()); add(L::epsilon()); add(std::nextafter(L::min(), F(0)));
    for(int e = L::min_exponent - L::digits; e < L::max_exponent; e += step) { F p = std::ldexp(F(1), e); add(p); if(step < 40 || e % 2) { add(std::nextafter(p, F(0))); add(std::nextafter(p, L::max())); } }
    for(int e = L::min_exponent10 - 5; e <= L::max_exponent10; e += std::max(1, step / 3)) { F p = std::pow(F(10), F(e)); if(p > 0 && std::isfinite(p)) { add(p); add(std::nextafter(p, F(0))); add(p * F(5)); } }
    for(int i = -10; i <= 22; ++i) { F p = std::pow(F(10), F(i)); add(p); add(p - p / 1000); add(std::nextafter(p, F(0))); }
    for(int i = 0; i < 33; ++i) add(F(i) / 8);
    for(F x : {F(0.1), F(0.5), F(1.5), F(2.5), F(99.95), F(0.99999), F(999999.5), F(9999995), F(123456789), F(1) / 3, F(2) / 3, F(3.14159265358979), F(0.000123456), F(100), F(1e15), F(1e16), F(1e17), F(0.0001), F(0.00001)}) add(x);
    std::vector<F> u; for(F v : r) { bool f = false; for(F w : u) f |= std::memcmp(&v, &w, std::min(sizeof v, std::size_t(10))) == 0; if(!f) u.push_back(v); }
    return u;
}
template <typename F> void kind(const char* ty, int order)
{
    // digits: every form and precision over every edge
    vk::section(std::string("digits: ") + ty, [ty](vk::S& s)
    {
        bool th = vk::thorough(); int big = std::numeric_limits<F>::max_exponent;
        std::vector<sp> sps; std::vector<long> pr{-1, 0, 1, 2, 3, 5, 6, 7, 9, 17, 18, 21, 40};
        if(th) { pr.clear(); for(long i = -1; i <= 45; ++i) pr.push_back(i); }
        if(!narrow && !th) pr = {-1, 0, 3, 17, 40};
        for(char t : std::string("\0fFeEgGaA", 9)) for(long p : pr) sps.push_back(mk(0, 0, '0', false, 0, p, t));
        int step = th ? (big > 2000 ? 37 : 1) : big > 2000 ? 487 : big > 200 ? 31 : 5;
        if(!narrow) step *= 5;
        run(s, sps, edges<F>(step), ty, 64);
    });
    // shape: the product of fill, alignment, sign, zero, width with form and precision
    vk::section(std::string("shape: ") + ty, [ty](vk::S& s)
    {
        bool th = vk::thorough();
        std::vector<sp> sps; std::vector<std::pair<char32_t, char>> fa{{0, 0}};
        for(char a : std::string("<>^")) { fa.push_back({0, a}); for(char32_t f : ref::u32(th ? U"*0\u6f22-\U0001F600" : U"0\u6f22")) fa.push_back({f, a}); }
        std::vector<std::size_t> ws{0, 1, 3, 4, 5, 8, 9, 13, 30}; std::vector<long> pr{-1, 0, 1, 4, 20};
        if(th) { ws = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 20, 30, 31, 64, 65, 300}; pr = {-1, 0, 1, 2, 4, 6, 20}; }
        if(!narrow && !th) { ws = {0, 5, 9}; pr = {-1, 1}; }
        for(auto [f, a] : fa) for(char sg : std::string("0+- ")) for(bool z : {false, true}) for(auto w : ws) for(char t : std::string("\0fFeEgGaA", 9)) for(long p : pr) sps.push_back(mk(f, a, sg, z, w, p, t));
        using L = std::numeric_limits<F>;
        std::vector<F> v{F(0), -F(0), F(1), F(-1.5), F(0.0625), F(123456.75), F(-1e20), L::infinity(), -L::infinity(), L::quiet_NaN(), -L::quiet_NaN(), L::denorm_min()};
        if(!th && L::max_exponent > 2000) { std::vector<sp> q; for(std::size_t i = 0; i < sps.size(); i += 5) q.push_back(sps[i]); sps = q; }
        run(s, sps, v, ty, 64);
    });
    // lengths: values and precisions that need long buffers
    vk::section(std::string("lengths: ") + ty, [ty](vk::S& s)
    {
        using L = std::numeric_limits<F>;
        std::vector<F> v{L::max(), L::lowest(), L::denorm_min(), L::min(), F(1), F(0), F(1) / 3, -std::ldexp(F(1), L::max_exponent / 2)};
        std::vector<long> pr{41, 63, 64, 65, 100, 127, 128, 200, 255, 256, 257, 300, 349, 350, 400, 500, 511, 512, 513, 767, 800, 1023, 1024, 1025, 1074, 1100, 2000, 4096};
        if(vk::thorough()) for(long p = 41; p < 1300; ++p) pr.push_back(p);
        std::vector<sp> sps;
        for(char t : std::string("\0fFeEgGaA", 9)) for(long p : pr) for(bool z : {false, true}) sps.push_back(mk(0, 0, '+', z, z ? std::size_t(p + 3) : 0, p, t));
        run(s, sps, v, ty, narrow ? 64 : 2);
    });
    // dynamic width and precision
    vk::section(std::string("dynamic: ") + ty, [ty](vk::S& s)
    {
        for(int w = 1; w < 24; ++w) for(int p = 0; p < 24; ++p) for(char t : std::string("fega"))
        {
            if(!s.next()) continue;
            auto e = W<C>(ref::A(std::string("{:*^+{}.{}") + t + "}")); s.desc(bytes<C>(e) + " width " + std::to_string(w) + " precision " + std::to_string(p));
            ref::spec q; q.fill = '*'; q.align = '^'; q.sign = '+'; q.width = w; q.prec = p; q.type = t;
            for(F v : {F(2.5), F(-0.1), F(1e10)})
            {
                auto got = attempt<C>([&] { return vfmt<C>(sv(e), papilio::make_format_args<ctx_t<C>>(v, w, p)); });
                ref::outcome o; o.text = ref::floating(v, q); judge<C>(s, "dynamic", got, o); s.trans();
            }
        }
    });
}
int main(int argc, char** argv)
{
    kind<float>("float", 0); kind<double>("double", 1); kind<long double>("long double", 2);
    // every float: all 2^16 leading bit patterns (sign, exponent, seven mantissa bits) shortest and read back
    vk::section("float bit patterns", [](vk::S& s)
    {
        std::vector<float> v; unsigned step = vk::thorough() ? 12 : 16;
        for(std::uint64_t b = 0; b < (1ull << 32); b += 1ull << step) { std::uint32_t u = std::uint32_t(b | (b >> 20 & 0xfff)); float f; std::memcpy(&f, &u, 4); v.push_back(f); }
        std::vector<sp> sps{mk(0, 0, '0', false, 0, -1, 0), mk(0, 0, '-', true, 15, -1, 0)};
        if(narrow) { sps.push_back(mk(0, 0, '0', false, 0, -1, 'e')); sps.push_back(mk(0, 0, ' ', false, 0, 3, 'g')); }
        run(s, sps, v, "float", 256);
    });
    return vk::main(argc, argv, "C05");
}
