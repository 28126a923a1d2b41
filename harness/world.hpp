// world.hpp - argument lists for templates, in every supply form, with their
// reference values; comparison of a template's real and reference outcome.
#pragma once
#include <papilio/papilio.hpp>
#include <papilio/xchar.hpp>
#include <array>
#include <memory>
#include <optional>
#include <tuple>
#include <variant>
#include "vk.hpp"
#include "ref.hpp"

template <typename C> using ctx_t = papilio::basic_format_context<papilio::format_iterator_for<C>, C>;
template <typename C> std::basic_string<C> W(std::u32string_view s) { return ref::enc<C>(s); }
template <typename C> std::string bytes(std::basic_string_view<C> s)
{
    if constexpr(sizeof(C) == 1) return std::string(reinterpret_cast<const char*>(s.data()), s.size());
    else
    {
        std::string r; char b[16];
        for(C c : s)
        {
            std::uint32_t v = std::uint32_t(c);
            if(v >= 0x20 && v < 0x7f) r += char(v);
            else { std::snprintf(b, sizeof b, "<%x>", v); r += b; }
        }
        return r;
    }
}

// a user-defined argument: every index kind, two attributes, its own formatter
template <typename C> struct obj { std::basic_string<C> name; };
inline std::vector<std::string> g_effects;

namespace papilio
{
template <typename C, typename Context>
requires(std::is_same_v<C, typename Context::char_type>)
struct accessor<obj<C>, Context>
{
    using arg_t = basic_format_arg<Context>;
    static arg_t index(const obj<C>&, ssize_t i) { return arg_t(int(i * 10)); }
    static arg_t index(const obj<C>&, index_range) { return arg_t(papilio::independent, std::basic_string<C>(1, C('R'))); }
    static arg_t index(const obj<C>&, const utf::basic_string_container<C>& k) { return arg_t(papilio::independent, std::basic_string<C>(std::basic_string_view<C>(k))); }
    static arg_t attribute(const obj<C>& o, const basic_attribute_name<C>& a)
    {
        if(a == std::basic_string_view<C>(W<C>(U"x"))) return arg_t(papilio::independent, o.name + W<C>(U".x"));
        if(a == std::basic_string_view<C>(W<C>(U"self"))) return arg_t(o);
        throw_invalid_attribute(a);
    }
};
template <typename C> class formatter<obj<C>, C>
{
public:
    template <typename ParseContext> auto parse(ParseContext& ctx) -> typename ParseContext::iterator
    {
        auto it = ctx.begin(), b = it;
        while(it != ctx.end() && *it != U'}') ++it;
        m_spec = std::basic_string<C>(b.base(), it.base());
        return it;
    }
    template <typename FormatContext> auto format(const obj<C>& o, FormatContext& ctx) const
    {
        using t = format_context_traits<FormatContext>;
        std::string e; for(auto& u : ref::segment<C>(m_spec)) e += u.cp < 128 ? char(u.cp) : '?';
        g_effects.push_back(e);
        if(m_spec == W<C>(U"bad")) throw std::runtime_error("object refuses");
        t::append(ctx, C('<')); t::append(ctx, std::basic_string_view<C>(o.name)); t::append(ctx, C('|'));
        t::append(ctx, std::basic_string_view<C>(m_spec)); t::append(ctx, C('>'));
        return ctx.out();
    }
private:
    std::basic_string<C> m_spec;
};
} // namespace papilio

template <typename C> struct world
{
    using str = std::basic_string<C>;
    using sv = std::basic_string_view<C>;
    using X = ctx_t<C>;
    // positional values
    int v0 = 3; str v1 = W<C>(U"a\u00e9\u6f22"); int v2 = -45; double v3 = 2.5; C v4 = C('x'); bool v5 = true;
    std::vector<int> v6{1, 2, 3};
    std::map<int, str> v7{{1, W<C>(U"one")}, {2, W<C>(U"two")}};
    std::map<str, int, std::less<>> v8{{W<C>(U"k"), 7}, {W<C>(U"\u00e9"), 8}};
    obj<C> v9{W<C>(U"ob")};
    std::tuple<int, str> v10{11, W<C>(U"t")};
    std::pair<int, str> v11{12, W<C>(U"p")};
    float v12 = -0.25f; unsigned long long v13 = 18446744073709551615ull; str v14; bool v15 = false; int v16 = 0; std::vector<str> v17{W<C>(U"q"), W<C>(U"\u6f22b")};
    // named values
    int na = 2; str nx = W<C>(U"sx"); obj<C> nb{W<C>(U"nb")}; str n_long = W<C>(U"uni"); bool nz = false;
    str nm_u = W<C>(U"\u00e9t\u00e9"), nm_l = W<C>(U"A_b9"), nm_a = W<C>(U"a"), nm_x = W<C>(U"x"), nm_b = W<C>(U"b"), nm_z = W<C>(U"z");

    std::vector<ref::val> pos; std::map<ref::u32, ref::val> named;
    papilio::basic_dynamic_format_args<X, C> dyn;

    template <typename F> decltype(auto) with(F f)
    {
        return f(v0, v1, v2, v3, v4, v5, v6, v7, v8, v9, v10, v11, v12, v13, v14, v15, v16, v17,
            papilio::arg(sv(nm_a), na), papilio::arg(sv(nm_x), nx), papilio::arg(sv(nm_b), nb), papilio::arg(sv(nm_u), n_long), papilio::arg(sv(nm_l), v2), papilio::arg(sv(nm_z), nz));
    }
    // the same, values in the reference
    world()
    {
        using ref::val;
        auto S = [](const char32_t* s) { return val::ofs(s); };
        pos.push_back(val::of(3)); pos.push_back(S(U"a\u00e9\u6f22")); pos.push_back(val::of(-45)); pos.push_back(val::ofd(2.5)); pos.push_back(val::ofc('x')); pos.push_back(val::ofb(true));
        pos.push_back(val::ofv(val::VEC, {val::of(1), val::of(2), val::of(3)}));
        val m; m.k = val::MAPI; m.mi = {{1, S(U"one")}, {2, S(U"two")}}; pos.push_back(m);
        val n; n.k = val::MAPS; n.ms = {{U"k", val::of(7)}, {U"\u00e9", val::of(8)}}; pos.push_back(n);
        val o; o.k = val::OBJ; o.s = U"ob"; pos.push_back(o);
        pos.push_back(val::ofv(val::TUP, {val::of(11), S(U"t")}));
        pos.push_back(val::ofv(val::PAIR, {val::of(12), S(U"p")}));
        pos.push_back(val::off(-0.25f)); pos.push_back(val::ofu(~0ull)); pos.push_back(S(U"")); pos.push_back(val::ofb(false)); pos.push_back(val::of(0));
        pos.push_back(val::ofv(val::VEC, {S(U"q"), S(U"\u6f22b")}));
        named[U"a"] = val::of(2); named[U"x"] = S(U"sx"); o.s = U"nb"; named[U"b"] = o; named[U"\u00e9t\u00e9"] = S(U"uni"); named[U"A_b9"] = val::of(-45); named[U"z"] = val::ofb(false);
        with([this](auto&&... a) { (dyn.emplace(std::forward<decltype(a)>(a)), ...); });
    }
};

template <typename C> std::string why(const ref::outcome& o)
{
    return o.k == ref::outcome::TEXT ? "text [" + vk::hex_escape(bytes<C>(W<C>(o.text))) + "]" : o.k == ref::outcome::ERROR ? std::string("an error (") + o.why + ")" : "unspecified (" + o.why + ")";
}

// what really happened
template <typename C> struct real { bool threw = false, foreign = false; std::string what; std::basic_string<C> text; std::vector<std::string> effects; };
template <typename C, typename F> real<C> attempt(F f)
{
    real<C> r; g_effects.clear();
    try { r.text = f(); }
    catch(const std::exception& e) { r.threw = true; r.what = e.what(); }
    catch(...) { r.threw = r.foreign = true; }
    r.effects = g_effects;
    return r;
}
template <typename C> void judge(vk::S& s, const char* route, const real<C>& r, const ref::outcome& o, bool effects = false)
{
    if(r.foreign) { s.fail(std::string(route) + ": threw something that is not a std::exception"); return; }
    if(o.k == ref::outcome::UNSPEC) return;
    if(o.k == ref::outcome::ERROR && !r.threw) { s.fail(std::string(route) + ": expected " + why<C>(o) + ", got text [" + vk::hex_escape(bytes<C>(r.text)) + "]"); return; }
    if(o.k == ref::outcome::TEXT && r.threw) { s.fail(std::string(route) + ": expected " + why<C>(o) + ", got exception " + r.what); return; }
    if(o.k == ref::outcome::TEXT && r.text != W<C>(o.text)) { s.fail(std::string(route) + ": expected " + why<C>(o) + ", got text [" + vk::hex_escape(bytes<C>(r.text)) + "]"); return; }
    if(effects && r.effects != o.effects)
    {
        std::string a, b; for(auto& e : r.effects) a += e + ";"; for(auto& e : o.effects) b += e + ";";
        s.fail(std::string(route) + ": formatter calls [" + vk::hex_escape(a) + "], expected [" + vk::hex_escape(b) + "]");
    }
}
// vformat for any character type (the library has compiled ones for char and wchar_t)
template <typename C, typename A> std::basic_string<C> vfmt(std::basic_string_view<C> f, const A& args)
{
    if constexpr(std::is_same_v<C, char> || std::is_same_v<C, wchar_t>) return papilio::vformat(f, args);
    else
    {
        std::basic_string<C> r;
        papilio::vformat_to(std::back_inserter(r), f, args);
        return r;
    }
}
// a template in a buffer of its exact size
template <typename C> struct exact
{
    std::unique_ptr<C[]> p; std::size_t n;
    explicit exact(std::basic_string_view<C> s) : p(new C[s.size()]), n(s.size()) { std::copy(s.begin(), s.end(), p.get()); }
    std::basic_string_view<C> view() const { return {p.get(), n}; }
};
