// C17: script values compare by value, consistently with each other
#include "world.hpp"
#include <bit>
#include <cmath>
#include <deque>
#ifndef CH
#define CH char
#endif
using C = CH;
using str = std::basic_string<C>;
using sv = std::basic_string_view<C>;
using ref::u32; using ref::u32v;
using cp = papilio::utf::codepoint;
using cont = papilio::utf::basic_string_container<C>;
using var = papilio::basic_variable<C>;

// ---- reference: a number is a 64 bit integer or a single precision number; a text is code points
struct rv { enum { BOOL, INT, FLT, STR } k; long long i = 0; float f = 0; u32 s; };
static rv B(bool b) { return {rv::BOOL, b, 0, {}}; }
static rv I(long long i) { return {rv::INT, i, 0, {}}; }
static rv F(float f) { return {rv::FLT, 0, f, {}}; }
static rv T(u32 s) { return {rv::STR, 0, 0, std::move(s)}; }
static float asf(const rv& r) { return r.k == rv::FLT ? r.f : float(r.i); }
enum ord { LT = -1, EQ = 0, GT = 1, UN = 2 };
static int order(const rv& a, const rv& b)
{
    if((a.k == rv::STR) != (b.k == rv::STR)) return UN;
    if(a.k == rv::STR) return a.s < b.s ? LT : a.s == b.s ? EQ : GT;
    if(a.k == rv::FLT || b.k == rv::FLT) { float x = asf(a), y = asf(b); return x < y ? LT : x == y ? EQ : x > y ? GT : UN; }
    return a.i < b.i ? LT : a.i == b.i ? EQ : GT;
}
static bool same(const rv& a, const rv& b, float eps = 1.1920929e-07f)
{
    if(order(a, b) == EQ) return true;
    if(a.k == rv::STR || b.k == rv::STR || (a.k != rv::FLT && b.k != rv::FLT)) return false;
    float x = asf(a), y = asf(b);
    if(std::isnan(x) || std::isnan(y) || std::isinf(x) || std::isinf(y)) return false;
    volatile float d = x - y; // in single precision
    return std::fabs(d) < eps;
}
static bool truth(const rv& r) { return r.k == rv::STR ? !r.s.empty() : r.k == rv::FLT ? r.f != 0 : r.i != 0; }
static bool rel(int op, const rv& a, const rv& b)
{
    int o = order(a, b);
    switch(op) { case 0: return same(a, b); case 1: return !same(a, b); case 2: return o == LT; case 3: return o == LT || o == EQ; case 4: return o == GT; default: return o == GT || o == EQ; }
}
static const char* const opn[] = {"==", "!=", "<", "<=", ">", ">="};
static std::string show(const rv& r)
{
    char b[64];
    switch(r.k) { case rv::BOOL: return r.i ? "true" : "false"; case rv::INT: return std::to_string(r.i); case rv::FLT: std::snprintf(b, sizeof b, "%af", r.f); return b; default: return "'" + bytes<C>(W<C>(r.s)) + "'"; }
}
static int po(std::partial_ordering o) { return o < 0 ? LT : o > 0 ? GT : o == 0 ? EQ : UN; }

// all six relations and the orderings, both ways round
static void relations(vk::S& s, const var& x, const var& y, const rv& a, const rv& b)
{
    s.trans(14);
    bool got[6] = {x == y, x != y, x < y, x <= y, x > y, x >= y}, inv[6] = {y == x, y != x, y > x, y >= x, y < x, y <= x};
    for(int k = 0; k < 6; ++k)
    {
        s.expect(got[k] == rel(k, a, b), "a ", opn[k], " b is ", got[k]);
        s.expect(inv[k] == got[k], "b against a: ", opn[k], " mirrored is ", inv[k]);
    }
    s.expect(po(x.compare(y)) == order(a, b) && po(x <=> y) == order(a, b) && po(y <=> x) == (order(a, b) == UN ? UN : -order(a, b)), "compare gives ", po(x.compare(y)));
    s.expect(x.equal(y) == same(a, b), "equal gives ", x.equal(y));
    s.expect(int(got[2]) + int(got[4]) + int(order(a, b) == EQ && got[0]) <= 1, "not exclusive");
    if(order(a, b) == EQ) s.expect(got[0] && got[3] && got[5], "equivalent values are not equal");
}

// ---- values, in every form a variable is made from
struct made { std::string how; var v; rv r; };
static const std::vector<long long>& ints() { static const std::vector<long long> v = [] { std::set<long long> r{0, 1, -1, 2, 3, 5, 9, 10, 97, -97, 100}; for(int k = 7; k < 64; ++k) for(int d = -1; d <= 1; ++d) { long long x = (long long)((1ull << k) + (unsigned long long)(long long)d); if(k == 63 && d < 0) x = 9223372036854775807ll; r.insert(x); r.insert((long long)(0ull - (unsigned long long)x)); } return std::vector<long long>(r.begin(), r.end()); }(); return v; }
static const std::vector<float>& floats()
{
    static const std::vector<float> v = []
    {
        std::vector<float> r;
        for(unsigned e = 0; e < 256; ++e) for(unsigned m : {0u, 1u, 0x400000u, 0x7fffffu}) for(unsigned g : {0u, 1u}) { if(!vk::thorough() && e > 12 && e < 243 && e % 2 && (e < 100 || e > 160)) continue; r.push_back(std::bit_cast<float>(g << 31 | e << 23 | m)); }
        for(float x : {0.1f, 0.2f, 0.3f, 0.1f + 0.2f, 0.5f, 97.f, 1.5f, -2.5f, 9.9f, 10.1f}) r.push_back(x);
        for(float c : {0.f, 0.1f, 0.5f, 0.999f, 1.f, 1.5f, 2.f, 3.f, -1.f}) { float up = c, dn = c; for(int i = 0; i < 6; ++i) { r.push_back(up); r.push_back(dn); up = std::nextafter(up, 1e9f); dn = std::nextafter(dn, -1e9f); } for(float d : {1e-8f, 5e-8f, 1.1920929e-07f, 1.2e-7f, 3e-7f}) { r.push_back(c + d); r.push_back(c - d); } }
        return r;
    }();
    return v;
}
static const std::vector<u32>& words() { static const std::vector<u32> v{U"", U"a", U"b", U"aa", U"ab", U"B", U"0", U"1", U"10", U"9", U"true", U"-1", U" ", U"\u00e9", U"\ue000", U"\U0001f351", U"\U0001f351a", U"a\u00e9", U"\u6f22\u5b57", U"a text that is longer than any small buffer", U"a text that is longer than any small buffes"}; return v; }

static std::deque<str>& pool() { static std::deque<str> p; return p; }
static std::vector<made> forms()
{
    std::vector<made> r;
    auto add = [&](std::string h, var v, rv x) { r.push_back({std::move(h), std::move(v), std::move(x)}); };
    for(bool b : {false, true}) { add("bool", var(b), B(b)); add("variant of bool", var(std::variant<int, bool>(std::in_place_index<1>, b)), B(b)); }
    for(int i : {0, 1, -1, 7, 2147483647, -2147483647 - 1}) { add("int", var(i), I(i)); add("long long", var((long long)i), I(i)); if(i >= -128 && i < 128) { add("signed char", var((signed char)i), I(i)); add("short", var(short(i)), I(i)); } }
    for(unsigned u : {0u, 1u, 4294967295u}) { add("unsigned", var(u), I(u)); add("unsigned char", var((unsigned char)u), I((unsigned char)u)); }
    for(unsigned long long u : {0ull, 1ull, 9223372036854775807ull}) { add("unsigned long long", var(u), I((long long)u)); add("variant of unsigned long long", var(std::variant<unsigned long long>(u)), I((long long)u)); }
    for(long long l : {9223372036854775807ll, -9223372036854775807ll - 1, 9007199254740993ll}) add("long long", var(l), I(l));
    for(double d : {0.0, -0.0, 1.0, 1.5, 0.1, 1e300, -1e300, 1e-300, 16777217.0, std::nan(""), double(INFINITY)}) { add("double", var(d), F(float(d))); add("float", var(float(d)), F(float(d))); add("long double", var((long double)d), F(float(d))); }
    for(auto& w : words())
    {
        pool().push_back(W<C>(w)); const str& z = pool().back();
        add("string", var(z), T(w)); add("string view", var(sv(z)), T(w)); add("pointer", var(z.c_str()), T(w)); add("container", var(cont(z)), T(w)); add("owning container", var(cont(papilio::independent, z)), T(w));
        add("independent string", var(papilio::independent, z), T(w)); add("moved string", var(str(z)), T(w));
        add("reference", var(papilio::utf::basic_string_ref<C>(z)), T(w));
        add("variant of string", var(std::variant<int, cont>(cont(z))), T(w));
        if(w.size() == 1) { add("code point", var(std::variant<cp, int>(cp(w[0]))), T(w)); }
    }
    return r;
}
static void check_value(vk::S& s, const var& v, const rv& r)
{
    s.expect(v.holds_bool() == (r.k == rv::BOOL) && v.holds_int() == (r.k == rv::INT) && v.holds_float() == (r.k == rv::FLT) && v.holds_string() == (r.k == rv::STR), "kind");
    s.expect(v.template as<bool>() == truth(r), "truth is ", v.template as<bool>());
    auto refuses = [&](auto f) { try { (void)f(); } catch(const papilio::invalid_conversion&) { return true; } return false; };
    auto noget = [&](auto f) { try { (void)f(); } catch(const papilio::bad_variable_access&) { return true; } return false; };
    using I64 = typename var::int_type; using FL = typename var::float_type;
    if(r.k == rv::STR)
    {
        auto w = W<C>(r.s);
        s.expect(v.template as<str>() == w && v.template as<sv>() == sv(w) && v.template as<cont>() == sv(w) && sv(v.template get<cont>()) == sv(w) && v.template get_if<cont>(), "text");
        s.expect(refuses([&] { return v.template as<int>(); }) && refuses([&] { return v.template as<double>(); }) && refuses([&] { return v.template as<I64>(); }), "a text became a number");
    }
    else
    {
        s.expect(refuses([&] { return v.template as<str>(); }) && refuses([&] { return v.template as<sv>(); }) && refuses([&] { return v.template as<cont>(); }), "a number became a text");
        if(r.k == rv::FLT) { s.expect(std::bit_cast<unsigned>(v.template as<float>()) == std::bit_cast<unsigned>(r.f) || std::isnan(r.f), "number"); if(std::isfinite(r.f)) s.expect(v.template as<double>() == double(r.f), "double"); if(std::fabs(r.f) < 1e9f) s.expect(v.template as<int>() == int(r.f), "truncation"); }
        else { s.expect(v.template as<I64>() == r.i && v.template as<double>() == double(r.i) && v.template as<float>() == float(r.i), "number"); if(r.i >= -2147483648ll && r.i <= 2147483647ll) s.expect(v.template as<int>() == int(r.i), "int"); if(r.i >= 0) s.expect(v.template as<unsigned long long>() == (unsigned long long)r.i, "unsigned"); }
    }
    auto only = [&]<typename X>(std::type_identity<X>, int k) { bool has = int(r.k) == k; s.expect(v.template holds<X>() == has && !!v.template get_if<X>() == has, "holds ", k); s.expect(noget([&] { return v.template get<X>(); }) == !has, "get ", k); };
    only(std::type_identity<bool>{}, rv::BOOL); only(std::type_identity<I64>{}, rv::INT); only(std::type_identity<FL>{}, rv::FLT); only(std::type_identity<cont>{}, rv::STR);
    s.trans(12);
}

int main(int argc, char** argv)
{
    static const std::vector<made> all = forms();
    vk::section("every way of making a value", [](vk::S& s)
    {
        for(auto& m : all)
        {
            if(!s.next()) continue;
            s.desc(m.how + " " + show(m.r));
            s.state(vk::hash_str(m.how + show(m.r)));
            check_value(s, m.v, m.r);
            // copies, moves and assignments keep the value
            var c(m.v); check_value(s, c, m.r); relations(s, c, m.v, m.r, m.r);
            var d(std::move(c)); check_value(s, d, m.r);
            for(auto& o : all) if(&o == &m || o.how == "int" || o.how == "owning container" || o.how == "float") { var e(o.v); e = m.v; check_value(s, e, m.r); check_value(s, m.v, m.r); var g(o.v); g = var(m.v); check_value(s, g, m.r); e = g; check_value(s, e, m.r); }
            d = d; check_value(s, d, m.r);
            // what the variant holds makes the same value
            var f(d.to_variant()); check_value(s, f, m.r);
            var g(var(d).to_variant()); check_value(s, g, m.r);
        }
    });
    vk::section("ownership", [](vk::S& s)
    {
        for(auto& w : words())
        {
            if(!s.next()) continue;
            s.desc(bytes<C>(W<C>(w)));
            str z = W<C>(w);
            var a{sv(z)}, b(papilio::independent, z), c{str(z)}, d(a), e(b);
            s.expect(!a.has_ownership() && b.has_ownership() && c.has_ownership() && var(1).has_ownership() && var(true).has_ownership() && var(1.f).has_ownership(), "ownership");
            str keep = z;
            for(auto& x : z) x = C('!');
            s.expect(b.template as<str>() == keep && c.template as<str>() == keep && e.template as<str>() == keep, "an owning value changed");
            s.expect(a.template as<str>() == z && d.template as<str>() == z, "a borrowing value did not follow its text");
        }
    });
    vk::section("all pairs of all forms", [](vk::S& s)
    {
        for(auto& a : all) for(auto& b : all)
        {
            if(!s.next()) continue;
            s.desc(a.how + " " + show(a.r) + " with " + b.how + " " + show(b.r));
            s.state(vk::hash_str(show(a.r) + "/" + show(b.r)));
            relations(s, a.v, b.v, a.r, b.r);
        }
    });
    vk::section("integers", [](vk::S& s)
    {
        for(auto a : ints()) { if(!s.next()) continue; s.desc(std::to_string(a)); var x(a); check_value(s, x, I(a)); for(auto b : ints()) relations(s, x, var(b), I(a), I(b)); for(bool b : {false, true}) relations(s, x, var(b), I(a), B(b)); s.state(vk::u64(a)); }
    });
    vk::section("integers with floating numbers", [](vk::S& s)
    {
        for(auto a : ints()) for(auto b : floats()) { if(!s.next()) continue; s.desc(std::to_string(a) + " with " + show(F(b))); relations(s, var(a), var(b), I(a), F(b)); }
        for(bool a : {false, true}) for(auto b : floats()) { if(!s.next()) continue; s.desc(std::to_string(a) + " with " + show(F(b))); relations(s, var(a), var(b), B(a), F(b)); check_value(s, var(b), F(b)); }
    });
    vk::section("floating numbers", [](vk::S& s)
    {
        for(auto a : floats()) { if(!s.next()) continue; s.desc(show(F(a))); s.state(vk::u64(std::bit_cast<unsigned>(a)) | 1ull << 40); var x(a); for(auto b : floats()) { var y(b); relations(s, x, y, F(a), F(b)); } }
    });
    vk::section("tolerance", [](vk::S& s)
    {
        const std::vector<float> eps{0.f, 1e-9f, 1e-7f, 0.001f, 0.5f, 1.f, 10.f};
        std::vector<made> ms; for(auto& m : all) if(m.how == "float" || m.how == "int" || m.how == "bool" || m.how == "string") ms.push_back(m);
        for(float c : {0.f, 1.f, 2.5f, 10.f, 11.f, 1.0005f, -0.75f}) ms.push_back({"float", var(c), F(c)});
        for(auto& a : ms) for(auto& b : ms) for(float e : eps)
        {
            if(!s.next()) continue;
            s.desc(show(a.r) + " with " + show(b.r) + " within " + show(F(e)));
            // the difference is taken in single precision
            bool want = same(a.r, b.r, 0.f);
            if(!want && a.r.k != rv::STR && b.r.k != rv::STR && (a.r.k == rv::FLT || b.r.k == rv::FLT)) { float x = asf(a.r), y = asf(b.r); volatile float d = x - y; want = std::fabs(d) < e; }
            s.expect(a.v.equal(b.v, e) == want && b.v.equal(a.v, e) == want, "equal within a tolerance is ", a.v.equal(b.v, e));
            s.trans(2);
        }
    });
    vk::section("texts", [](vk::S& s)
    {
        // all texts of up to 3 code points over an alphabet in which unit and code point order differ
        const char32_t al[] = {U'a', U'b', U'Z', U'0', U'\u00e9', U'\ud7ff', U'\ue000', U'\uffff', U'\U00010000', U'\U0010ffff'};
        std::vector<u32> w{U""};
        for(std::size_t i = 0; i < w.size(); ++i) if(w[i].size() < (vk::thorough() ? 3u : 2u)) for(char32_t c : al) w.push_back(w[i] + c);
        std::vector<str> e; for(auto& x : w) e.push_back(W<C>(x));
        for(std::size_t i = 0; i < w.size(); ++i)
        {
            if(!s.next()) continue;
            s.desc(bytes<C>(e[i])); s.state(vk::hash_str(bytes<C>(e[i])));
            var x{sv(e[i])}; check_value(s, x, T(w[i]));
            for(std::size_t j = 0; j < w.size(); ++j)
            {
                if(w[i].size() == 3 && w[j].size() == 3 && (i + j) % 8) continue;
                relations(s, x, j % 2 ? var(sv(e[j])) : var(papilio::independent, e[j]), T(w[i]), T(w[j]));
            }
        }
    });
    // ---- the same through templates: every argument type and every literal form
    struct operand { u32 text; rv r; };
    vk::section("conditions of templates", [](vk::S& s)
    {
        std::deque<str> keep; keep.push_back(W<C>(U"abc")); keep.push_back(W<C>(U"")); keep.push_back(W<C>(U"10")); keep.push_back(W<C>(U"\u6f22"));
        int i0 = 0, i5 = 5, im = -5; unsigned u = 4294967295u; long long ll = 9007199254740993ll, lmin = -9223372036854775807ll - 1; unsigned long long ul = 9223372036854775807ull;
        float f = 0.25f, fz = 0.f, f5 = 5.f; double d = 2.5, dn = std::nan(""), dt = 0.1, big = 1e300; long double ld = -5.0L; bool bt = true, bf = false; C c = C('a'); cp k(U'\u6f22'); short sh = 5; unsigned char uc = 97; papilio::utf::basic_string_ref<C> sr(keep[0]);
        auto store = papilio::make_format_args<ctx_t<C>>(i0, i5, im, u, ll, lmin, ul, f, fz, f5, d, dn, dt, big, ld, bt, bf, c, k, sh, uc, keep[0], sv(keep[1]), keep[2].c_str(), sr, keep[3]);
        const std::vector<rv> rs{I(0), I(5), I(-5), I(u), I(ll), I(lmin), I((long long)ul), F(.25f), F(0), F(5), F(2.5f), F(NAN), F(float(dt)), F(INFINITY), F(-5), B(true), B(false), T(U"a"), T(U"\u6f22"), I(5), I(97), T(U"abc"), T(U""), T(U"10"), T(U"abc"), T(U"\u6f22")};
        std::vector<operand> ops;
        for(std::size_t i = 0; i < rs.size(); ++i) { u32 t = U"{"; for(char x : std::to_string(i)) t += char32_t(x); ops.push_back({t + U"}", rs[i]}); }
        for(auto& [t, r] : std::vector<operand>{{U"0", I(0)}, {U"5", I(5)}, {U"-5", I(-5)}, {U"10", I(10)}, {U"9007199254740992", I(9007199254740992ll)}, {U"9223372036854775807", I(9223372036854775807ll)}, {U"-9223372036854775808", I(lmin)}, {U"0.0", F(0)}, {U"5.0", F(5)}, {U"0.1", F(.1f)}, {U"2.5", F(2.5f)}, {U"-5.0", F(-5)}, {U"-0.0", F(-0.f)}, {U"0.10000001", F(.10000001f)}, {U"5.000001", F(5.000001f)}, {U"''", T(U"")}, {U"'a'", T(U"a")}, {U"'abc'", T(U"abc")}, {U"'10'", T(U"10")}, {U"'9'", T(U"9")}, {U"'\u6f22'", T(U"\u6f22")}, {U"'\U0001f351'", T(U"\U0001f351")}, {U"{4294967295}", {}}}) if(t[0] != U'{') ops.push_back({t, r});
        auto run = [&](const u32& t) { str g = vfmt<C>(sv(W<C>(t)), store); return bytes<C>(g); };
        static const char32_t* const o32[] = {U"==", U"!=", U"<", U"<=", U">", U">="};
        for(auto& a : ops) for(auto& b : ops) for(int k = 0; k < 6; ++k)
        {
            if(!s.next()) continue;
            u32 t = U"{$ " + a.text + U" " + o32[k] + U" " + b.text + U" ? 'y' : 'n'}";
            s.desc(bytes<C>(W<C>(t))); s.trans();
            s.eq(show(a.r) + " " + opn[k] + " " + show(b.r), run(t), rel(k, a.r, b.r) ? "y" : "n");
        }
        for(auto& a : ops) for(int neg = 0; neg < 2; ++neg)
        {
            if(!s.next()) continue;
            if(neg == 0 && false) continue;
            u32 t = U"{$ " + u32(neg ? U"!" : U"") + a.text + U" ? 'y' : 'n'}";
            s.desc(bytes<C>(W<C>(t))); s.trans();
            s.eq("truth of " + show(a.r), run(t), truth(a.r) != bool(neg) ? "y" : "n");
        }
    });
    vk::section("unsigned numbers beyond the signed ones", [](vk::S& s)
    {
        static const char32_t* const o32[] = {U"==", U"!=", U"<", U"<=", U">", U">="};
        for(unsigned long long u : {9223372036854775808ull, 18446744073709551615ull}) for(int m : {0, 1}) for(int k = 0; k < 6; ++k)
        {
            if(!s.next()) continue;
            long long o = m ? -1 : 0;
            auto store = papilio::make_format_args<ctx_t<C>>(u, o);
            u32 t = u32(U"{$ {0} ") + o32[k] + U" {1} ? 'y' : 'n'}";
            s.desc(std::to_string(u) + " " + opn[k] + " " + std::to_string(o));
            s.trans();
            s.eq("comparison", bytes<C>(vfmt<C>(sv(W<C>(t)), store)), (k == 1 || k == 4 || k == 5) ? "y" : "n");
        }
    });
    return vk::main(argc, argv, "C17");
}
