// C09: indexing, slicing and attributes
#include "world.hpp"
#include <papilio/accessor/chrono.hpp>
#include <papilio/accessor/misc.hpp>
#include <papilio/formatter/chrono.hpp>
#include <set>
#include <span>
#include <typeindex>
#if __cplusplus > 202002L
#include <expected>
#endif
#ifndef CH
#define CH char
#endif
using C = CH;
using str = std::basic_string<C>;
using sv = std::basic_string_view<C>;
static constexpr bool narrow = std::is_same_v<C, char>;
using ref::val;

static val tov(int x) { return val::of(x); }
static val tov(const str& x) { return val::ofs(ref::dec<C>(x)); }
static val tov(bool x) { return val::ofb(x); }
static val tov(double x) { return val::ofd(x); }
template <typename T> static val tov(const std::vector<T>& v) { std::vector<val> e; for(const auto& x : v) e.push_back(tov(x)); return val::ofv(val::VEC, e); }

// accessor suffixes: every index and every slice in a window, and extreme numbers
static std::vector<ref::u32> subs(int w, bool slices, bool extreme = true)
{
    std::vector<ref::u32> r; auto n = [](long long i) { return ref::A(std::to_string(i)); };
    for(int i = -w; i <= w; ++i) r.push_back(U"[" + n(i) + U"]");
    if(extreme) for(const char* x : {"-9223372036854775808", "-9223372036854775807", "9223372036854775807", "9223372036854775806", "4294967296", "-4294967296", "4294967297", "256", "-255", "-0", "007", "9223372036854775808", "18446744073709551616"}) r.push_back(U"[" + ref::A(x) + U"]");
    if(!slices) return r;
    for(int a = -w - 1; a <= w; ++a) for(int b = -w - 1; b <= w; ++b) r.push_back(U"[" + (a < -w ? ref::u32() : n(a)) + U":" + (b < -w ? ref::u32() : n(b)) + U"]");
    if(extreme) for(const char* x : {"-9223372036854775808:", ":-9223372036854775808", "9223372036854775806:9223372036854775806", "0:9223372036854775806", "-9223372036854775807:9223372036854775806", "1:4294967297", "-4294967297:2", "4294967296:4294967298"}) r.push_back(U"[" + ref::A(x) + U"]");
    return r;
}
template <typename T> static bool one(vk::S& s, const char* form, const T& v, const val& m, const ref::u32& acc)
{
    ref::u32 t = U"{0" + acc + U"}"; auto e = W<C>(t);
    std::vector<val> pos{m};
    auto o = ref::run<C>(t, pos, {});
    s.trans();
    auto r = attempt<C>([&] { return vfmt<C>(sv(e), papilio::make_format_args<ctx_t<C>>(v)); });
    if(!s.ok()) return false;
    judge<C>(s, (std::string(form) + " " + bytes<C>(e)).c_str(), r, o);
    s.state(vk::hash_str(r.threw ? "E" : bytes<C>(r.text)));
    return s.ok();
}
static std::string show(const val& v)
{
    switch(v.k)
    {
    case val::STR: return "'" + vk::hex_escape(bytes<C>(W<C>(v.s))) + "'";
    case val::VEC: case val::TUP: case val::PAIR: { std::string r = v.k == val::VEC ? "[" : "("; for(auto& e : v.e) r += show(e) + ","; return r + (v.k == val::VEC ? "]" : ")"); }
    case val::MAPI: { std::string r = "{"; for(auto& [k, e] : v.mi) r += std::to_string(k) + ":" + show(e) + ","; return r + "}"; }
    case val::MAPS: { std::string r = "{"; for(auto& [k, e] : v.ms) r += vk::hex_escape(bytes<C>(W<C>(k))) + ":" + show(e) + ","; return r + "}"; }
    default: return std::to_string((long long)v.i);
    }
}
template <typename T> static void whole(vk::S& s, const char* form, const T& v, const val& m, const std::vector<ref::u32>& acc)
{
    if(!s.next()) return;
    s.desc(std::string(form) + " " + show(m));
    for(auto& a : acc) if(!one(s, form, v, m, a)) return;
    s.sample(std::string(form) + " " + show(m));
}
static const std::vector<ref::u32> attrs{U"", U".size", U".length", U".first", U".second", U".min", U".max", U".value", U".x", U".siz", U".sizes", U".SIZE", U"['a']", U"['']"};

template <typename K> static void int_maps(const char* name, std::vector<long long> keys, bool rest)
{
    vk::section(std::string("map with ") + name + " keys", [=](vk::S& s)
    {
        auto acc = subs(6, true); for(auto& a : attrs) if(!a.empty()) acc.push_back(a);
        for(long long k : {127ll, 128ll, -128ll, -129ll, 255ll, 256ll, 65535ll, 65536ll, -32768ll, 2147483647ll, 2147483648ll, -2147483649ll, 4294967295ll}) acc.push_back(U"[" + ref::A(std::to_string(k)) + U"]");
        acc.push_back(U"[0][0]"); acc.push_back(U"[1].length"); acc.push_back(U".max[-1]"); acc.push_back(U".min[0:1]");
        for(unsigned b = 0; b < (1u << keys.size()); ++b)
        {
            val m; m.k = val::MAPI; std::map<K, str> r; std::map<K, str, std::greater<K>> g; papilio::fixed_flat_map<K, str, 8> f; std::map<K, str, std::less<>> tr;
            std::map<K, str> ordered;
            for(std::size_t i = 0; i < keys.size(); ++i) if(b >> i & 1)
            {
                str v = W<C>(U"v\u00e9") + W<C>(ref::A(std::to_string(i)));
                m.mi[keys[i]] = tov(v); r[K(keys[i])] = v; g[K(keys[i])] = v; f.insert_or_assign(K(keys[i]), v); tr[K(keys[i])] = v;
            }
            whole(s, "map", r, m, acc);
            if(rest) { whole(s, "map greater", g, m, acc); whole(s, "fixed_flat_map", f, m, acc); whole(s, "map less<>", tr, m, acc); }
        }
    });
}

int main(int argc, char** argv)
{
    vk::section("strings", [](vk::S& s)
    {
        static const char32_t al[] = {U'a', U'\u00e9', U'\u6f22', U'\U0001F600'};
        auto acc = subs(vk::thorough() ? 8 : 6, true); acc.insert(acc.end(), attrs.begin(), attrs.end());
        auto brief = subs(3, true, false);
        auto all = [&](const std::vector<int>& ix, bool run)
        {
            if(!run) return true;
            ref::u32 v; for(int i : ix) v += al[i];
            auto enc = W<C>(v); exact<C> e(enc); val m = val::ofs(v);
            s.desc("string " + show(m));
            for(auto& a : acc) if(!one(s, "string_view", e.view(), m, a)) return true;
            if(ix.size() <= 3) for(auto& a : brief)
                if(!one(s, "string", enc, m, a) || !one(s, "const C*", enc.c_str(), m, a) || !one(s, "string_ref", papilio::utf::basic_string_ref<C>(e.view()), m, a) || !one(s, "string_container", papilio::utf::basic_string_container<C>(enc), m, a) || !one(s, "borrowing string_container", papilio::utf::basic_string_container<C>(e.view()), m, a)) return true;
            s.sample("string " + show(m));
            return true;
        };
        { std::vector<int> none; if(s.enter(0, vk::S::owner(0))) all(none, true); }
        vk::token_tree(s, 4, vk::thorough() ? 6 : narrow ? 5 : 4, 1, all);
    });
    vk::section("contiguous ranges", [](vk::S& s)
    {
        auto acc = subs(vk::thorough() ? 10 : 8, true); acc.insert(acc.end(), attrs.begin() + 1, attrs.end());
        for(int n = 0; n <= 6; ++n)
        {
            std::vector<int> v; std::vector<str> t; std::vector<bool> b; std::vector<double> d; papilio::small_vector<int, 3> sm; papilio::fixed_vector<int, 6> fx;
            for(int i = 0; i < n; ++i) { v.push_back(i * 10 + 1); t.push_back(W<C>(U"s\u6f22") + W<C>(ref::A(std::to_string(i)))); b.push_back(i % 2); d.push_back(i + 0.5); sm.push_back(i * 10 + 1); fx.push_back(i * 10 + 1); }
            std::unique_ptr<int[]> heap(new int[n]); std::copy(v.begin(), v.end(), heap.get());
            auto m = tov(v);
            whole(s, "vector<int>", v, m, acc); whole(s, "span", std::span<int>(heap.get(), n), m, acc); whole(s, "span const", std::span<const int>(heap.get(), n), m, acc);
            whole(s, "small_vector", sm, m, acc); whole(s, "fixed_vector", fx, m, acc); whole(s, "vector<string>", t, tov(t), acc); whole(s, "vector<double>", d, tov(d), acc);
            auto idx = subs(8, false); idx.push_back(U".size"); idx.push_back(U".length");
            whole(s, "vector<bool>", b, tov(b), idx);
        }
        int a1[1]{1}, a3[3]{1, 11, 21}; std::array<int, 0> z0{}; std::array<int, 4> z4{1, 11, 21, 31};
        whole(s, "int[1]", a1, tov(std::vector<int>(a1, a1 + 1)), acc); whole(s, "int[3]", a3, tov(std::vector<int>(a3, a3 + 3)), acc);
        whole(s, "array<int,4>", z4, tov(std::vector<int>(z4.begin(), z4.end())), acc); whole(s, "array<int,0>", z0, tov(std::vector<int>()), acc);
    });
    vk::section("tuples", [](vk::S& s)
    {
        auto acc = subs(6, false); for(auto& a : attrs) if(!a.empty()) acc.push_back(a);
        str x = W<C>(U"x\u00e9");
        auto T = [](std::vector<val> e) { return val::ofv(val::TUP, e); };
        whole(s, "tuple<>", std::tuple<>(), T({}), acc);
        whole(s, "tuple1", std::tuple<int>(7), T({tov(7)}), acc);
        whole(s, "tuple1s", std::tuple<str>(x), T({tov(x)}), acc);
        whole(s, "tuple2", std::tuple<int, str>(7, x), val::ofv(val::PAIR, {tov(7), tov(x)}), acc);
        whole(s, "tuple3", std::tuple<str, int, bool>(x, 7, true), T({tov(x), tov(7), tov(true)}), acc);
        whole(s, "tuple5", std::tuple<int, str, double, int, str>(1, x, 2.5, 4, x), T({tov(1), tov(x), tov(2.5), tov(4), tov(x)}), acc);
        whole(s, "pair", std::pair<str, int>(x, 7), val::ofv(val::PAIR, {tov(x), tov(7)}), acc);
        whole(s, "compressed_pair", papilio::compressed_pair<int, str>(7, x), val::ofv(val::PAIR, {tov(7), tov(x)}), acc);
    });
    int_maps<int>("int", {-2, 0, 1, 3}, true);
    if(narrow) { int_maps<signed char>("signed char", {-128, -1, 0, 127}, false); int_maps<unsigned char>("unsigned char", {0, 1, 128, 255}, false); int_maps<short>("short", {-32768, 1, 5}, false); }
    int_maps<unsigned>("unsigned", {0, 1, 2147483648ll, 4294967295ll}, false);
    int_maps<long long>("long long", {std::numeric_limits<long long>::min(), 0, 4294967296ll, std::numeric_limits<long long>::max()}, narrow);
    int_maps<unsigned long long>("unsigned long long", {0, 1, 4294967296ll, std::numeric_limits<long long>::max()}, false);
    vk::section("map with string keys", [](vk::S& s)
    {
        static const char32_t* keys[] = {U"", U"a", U"aa", U"\u00e9", U"}", U"k'"};
        std::vector<ref::u32> acc;
        for(const char32_t* k : {U"", U"a", U"aa", U"aaa", U"b", U"\u00e9", U"e", U"}", U"]", U"k\\'", U"k", U"\\a", U"a\\\\", U"\U0001F600"}) acc.push_back(U"['" + ref::u32(k) + U"']");
        for(auto& a : attrs) if(!a.empty()) acc.push_back(a);
        for(auto& a : subs(2, true)) acc.push_back(a);
        acc.push_back(U"['a'][0]"); acc.push_back(U".min[0]"); acc.push_back(U"['']['']");
        for(int b = 0; b < 64; ++b)
        {
            val m; m.k = val::MAPS; std::map<str, str> r; std::map<str, str, std::less<>> t; std::map<str, str, std::greater<>> g; papilio::fixed_flat_map<str, str, 8> f; std::vector<str> own; std::map<sv, str, std::less<>> v;
            for(int i = 0; i < 6; ++i) own.push_back(W<C>(keys[i]));
            for(int i = 0; i < 6; ++i) if(b >> i & 1) { str x = W<C>(U"val\u6f22") + own[i]; m.ms[keys[i]] = tov(x); r[own[i]] = x; t[own[i]] = x; g[own[i]] = x; f.insert_or_assign(own[i], x); v[own[i]] = x; }
            whole(s, "map<string>", r, m, acc); whole(s, "map<string, less<>>", t, m, acc); whole(s, "map<string, greater<>>", g, m, acc); whole(s, "fixed_flat_map<string>", f, m, acc); whole(s, "map<string_view, less<>>", v, m, acc);
        }
    });
    // chains of two and three accesses on nested values
    vk::section("chains", [](vk::S& s)
    {
        std::vector<ref::u32> step = subs(3, true, false);
        for(const char32_t* a : {U".size", U".length", U".first", U".second", U"['a']", U"['\u00e9']", U".min", U".max"}) step.push_back(a);
        str x = W<C>(U"a\u00e9\u6f22");
        std::vector<str> vs{x, W<C>(U""), W<C>(U"b")}; std::vector<std::vector<int>> vv{{1, 2, 3}, {}, {4}}; std::map<int, std::vector<str>> mv{{0, vs}, {-1, {}}}; std::map<str, std::map<str, int>> mm{{W<C>(U"a"), {{W<C>(U"\u00e9"), 5}}}, {W<C>(U"\u00e9"), {}}};
        std::pair<str, std::pair<int, std::vector<int>>> pp{x, {1, {7, 8}}}; std::tuple<std::vector<str>, str, int> tt{vs, x, 3}; std::vector<std::pair<int, str>> vp{{1, x}, {2, W<C>(U"q")}};
        val mvv; mvv.k = val::MAPI; mvv.mi = {{0, tov(vs)}, {-1, tov(std::vector<str>())}};
        val in; in.k = val::MAPS; in.ms = {{U"\u00e9", tov(5)}}; val em; em.k = val::MAPS; val mmv; mmv.k = val::MAPS; mmv.ms = {{U"a", in}, {U"\u00e9", em}};
        auto P = [](val a, val b) { return val::ofv(val::PAIR, {a, b}); };
        for(std::size_t i = 0; i < step.size(); ++i)
        {
            if(!s.next()) continue;
            s.desc("two accesses, the first is " + bytes<C>(W<C>(step[i])));
            for(auto& b : step)
            {
                auto a = step[i] + b;
                if(!(one(s, "string", x, tov(x), a) && one(s, "vector<string>", vs, tov(vs), a) && one(s, "vector<vector>", vv, tov(vv), a) && one(s, "map<int,vector>", mv, mvv, a) && one(s, "map<string,map>", mm, mmv, a)
                    && one(s, "pair", pp, P(tov(x), P(tov(1), tov(std::vector<int>{7, 8}))), a) && one(s, "tuple", tt, val::ofv(val::TUP, {tov(vs), tov(x), tov(3)}), a) && one(s, "vector<pair>", vp, val::ofv(val::VEC, {P(tov(1), tov(x)), P(tov(2), tov(W<C>(U"q")))}), a))) break;
            }
        }
        // three accesses into nested sequences
        std::vector<ref::u32> st = subs(2, true, false); st.push_back(U".size"); st.push_back(U".second");
        for(auto& a : st) for(auto& b : st)
        {
            if(!s.next()) continue;
            s.desc("three accesses, first " + bytes<C>(W<C>(a + b)));
            for(auto& c : st) if(!(one(s, "vector<string>", vs, tov(vs), a + b + c) && one(s, "map<int,vector>", mv, mvv, a + b + c) && one(s, "pair", pp, P(tov(x), P(tov(1), tov(std::vector<int>{7, 8}))), a + b + c))) break;
        }
    });
    // wrappers: expectations written out (empty string: reported)
    vk::section("wrappers", [](vk::S& s)
    {
        auto is = [&](const char* form, const auto& v, const char32_t* acc, std::optional<ref::u32> want)
        {
            if(!s.next()) return;
            auto e = W<C>(U"{0" + ref::u32(acc) + U"}"); s.desc(std::string(form) + " " + bytes<C>(e)); s.trans();
            ref::outcome o; if(want) o.text = *want; else { o.k = o.ERROR; o.why = "null value or unknown attribute"; }
            judge<C>(s, form, attempt<C>([&] { return vfmt<C>(sv(e), papilio::make_format_args<ctx_t<C>>(v)); }), o);
        };
        using O = std::optional<ref::u32>;
        str x = W<C>(U"a\u00e9\u6f22"); std::vector<int> iv{5, 6};
        std::optional<int> o1(3), o0; std::optional<str> os(x), oe; std::optional<std::vector<int>> ov(iv);
        is("optional", o1, U".value", U"3"); is("optional", o1, U".has_value", U"true"); is("optional", o0, U".value", O()); is("optional", o0, U".has_value", U"false"); is("optional", o1, U".index", O()); is("optional", o1, U"[0]", O());
        is("optional<string>", os, U".value[1]", U"\u00e9"); is("optional<string>", os, U".value[1:]", U"\u00e9\u6f22"); is("optional<string>", os, U".value.length", U"3"); is("optional<string>", oe, U".value", O()); is("optional<string>", oe, U".value[0]", O()); is("optional<vector>", ov, U".value[-1]", U"6"); is("optional<vector>", ov, U".value[5]", O());
        std::variant<int, str, std::vector<int>> va(4), vb(x), vc(iv);
        for(int k = 0; k < 3; ++k)
        {
            auto& v = k == 0 ? va : k == 1 ? vb : vc;
            is("variant", v, U".index", ref::A(std::to_string(k)));
            for(int i = -5; i < 6; ++i)
            {
                int j = i < 0 ? i + 3 : i;
                auto acc = U"[" + ref::A(std::to_string(i)) + U"]";
                is("variant", v, acc.c_str(), j != k ? O() : k == 0 ? O(U"4") : k == 1 ? O(U"a\u00e9\u6f22") : O(U"[5, 6]"));
                acc += U"[1]"; is("variant", v, acc.c_str(), j != k ? O() : k == 0 ? O() : k == 1 ? O(U"\u00e9") : O(U"6"));
            }
            is("variant", v, U".value", k == 0 ? O(U"4") : k == 1 ? O(U"a\u00e9\u6f22") : O(U"[5, 6]"));
            is("variant", v, U".value[-1]", k == 0 ? O() : k == 1 ? O(U"\u6f22") : O(U"6"));
            is("variant", v, U".error", O());
        }
#if __cplusplus > 202002L
        std::expected<int, str> e1{7}, e0{std::unexpect, x};
        is("expected", e1, U".value", U"7"); is("expected", e1, U".error", O()); is("expected", e1, U".has_value", U"true"); is("expected", e0, U".value", O()); is("expected", e0, U".error", U"a\u00e9\u6f22"); is("expected", e0, U".error[1]", U"\u00e9"); is("expected", e0, U".has_value", U"false"); is("expected", e0, U".foo", O());
#endif
        std::tm tm{}; int n = 1;
        for(int* f : {&tm.tm_year, &tm.tm_mon, &tm.tm_mday, &tm.tm_hour, &tm.tm_min, &tm.tm_sec, &tm.tm_wday, &tm.tm_yday}) *f = n++;
        is("tm", tm, U".year", U"1901"); is("tm", tm, U".month", U"2"); is("tm", tm, U".mday", U"3"); is("tm", tm, U".hour", U"4"); is("tm", tm, U".min", U"5"); is("tm", tm, U".sec", U"6"); is("tm", tm, U".wday", U"7"); is("tm", tm, U".yday", U"8"); is("tm", tm, U".is_dst", U"false"); is("tm", tm, U".day", O());
        tm.tm_isdst = 1; is("tm", tm, U".is_dst", U"true");
        std::type_index ti(typeid(std::vector<int>)); std::string tn = ti.name();
        using papilio::accessor;
        if(s.next()) { s.desc("type_index"); auto a = accessor<std::type_index, ctx_t<C>>::attribute(ti, W<C>(U"name")); std::string got; str out; 
            out = vfmt<C>(W<C>(U"{}"), papilio::make_format_args<ctx_t<C>>(a)); s.eq("name", bytes<C>(out), tn); }
    });
    return vk::main(argc, argv, "C09");
}
