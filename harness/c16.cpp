// C16: ranges, tuples, joins and wrappers render by composing their elements
#include "world.hpp"
#include <deque>
#include <forward_list>
#include <list>
#include <map>
#include <memory>
#include <ranges>
#include <set>
#include <span>
#include <unordered_map>
#include <unordered_set>
#ifdef __cpp_lib_expected
#include <expected>
#endif
#ifndef CH
#define CH char
#endif
using C = CH;
using str = std::basic_string<C>;
using sv = std::basic_string_view<C>;
using ref::u32; using ref::u32v; using ref::val;
using cp = papilio::utf::codepoint;

enum class color { red, dark_green = 7, blue = -3 };
struct custom { int v; };               // parses its own specification
struct light { int v; };                // takes no specification
struct adl { int v; };                  // found by its function
template <typename FC> auto format(const adl& a, FC& ctx) { papilio::format_context_traits<FC>::append(ctx, typename FC::char_type('0' + a.v)); return ctx.out(); }
namespace papilio
{
template <typename Ch> class formatter<custom, Ch>
{
    bool m_b = false;
public:
    template <typename PC> auto parse(PC& c) -> typename PC::iterator { auto it = c.begin(); if(it != c.end() && *it == U'!') { m_b = true; ++it; } return it; }
    template <typename FC> auto format(const custom& u, FC& ctx) const { using t = format_context_traits<FC>; t::append(ctx, Ch(m_b ? 'U' : 'u')); t::append(ctx, Ch('0' + u.v)); return ctx.out(); }
};
template <typename Ch> class formatter<light, Ch>
{
public:
    template <typename PC, typename FC> auto format(const light& l, PC&, FC& ctx) const -> typename FC::iterator { using t = format_context_traits<FC>; t::append(ctx, Ch('l')); t::append(ctx, Ch('0' + l.v)); return ctx.out(); }
};
} // namespace papilio

// ---- reference: types and values
struct ty { enum { LEAF, CUSTOM, RANGE, TUP, LIGHT, JOIN } k; char leaf = 0; bool set = false; std::vector<const ty*> c; const char* name = ""; };
struct node { val v; u32 text; std::vector<node> e; bool plain = false; u32 sep; };
struct unclaimed {};
template <typename T> struct item { T v; node n; };

static const val& dummy(char leaf) { static const std::map<char, val> m{{'i', val::of(1)}, {'c', val::ofc('a')}, {'s', val::ofs(U"a")}, {'b', val::ofb(true)}, {'d', val::ofd(1)}, {'p', val::ofp(0)}, {'e', val::ofs(U"red")}}; return m.at(leaf); }
static ref::outcome leaf(char kind, const val& v, u32v spec)
{
    static std::map<std::pair<u32, u32>, ref::outcome> cache;
    u32 id{char32_t(kind), char32_t(v.k), char32_t(v.i), char32_t((unsigned long long)(v.i) >> 32), char32_t(v.d * 8)}; id += v.s;
    auto k = std::pair(id, u32(spec));
    if(auto it = cache.find(k); it != cache.end()) return it->second;
    ref::outcome o;
    if(spec == U"?" && (kind == 'c' || kind == 's'))
    {
        auto w = kind == 's' ? W<C>(v.s) : W<C>(u32(1, char32_t(v.i)));
        o.text = ref::dec<C>(ref::escaped<C>(sv(w), kind == 's' ? U'"' : U'\''));
    }
    else o = ref::run<C>(u32(U"{:") + u32(spec) + U"}", {v, val::of(5), val::of(2), val::of(9)}, {});
    return cache[k] = o;
}
// renders n (or only checks the specification if n is null); the specification is the rest of the field
static void render(const ty& t, const node* n, u32v spec, u32& out)
{
    switch(t.k)
    {
    case ty::LEAF:
    {
        auto o = leaf(t.leaf, n ? n->v : dummy(t.leaf), spec);
        if(o.k == ref::outcome::ERROR) throw ref::error{"element"};
        if(o.k == ref::outcome::UNSPEC) throw unclaimed{};
        out += o.text;
        return;
    }
    case ty::CUSTOM:
        if(spec != U"" && spec != U"!") throw ref::error{"element"};
        if(n) { out += spec.empty() ? U"u" : U"U"; out += char32_t(U'0' + int(n->v.i)); }
        return;
    case ty::LIGHT:
        if(!spec.empty()) throw ref::error{"specification of a value that takes none"};
        if(!n) return;
        if(n->e.empty()) out += n->text;
        else render(*t.c[n->v.i], &n->e[0], U"", out);
        return;
    case ty::JOIN:
    {
        if(!n || n->e.empty()) { u32 x; render(*t.c[0], nullptr, spec, x); }
        if(n) for(std::size_t i = 0; i < n->e.size(); ++i) { if(i) out += n->sep; render(*t.c[0], &n->e[i], spec, out); }
        return;
    }
    case ty::TUP:
    {
        u32 open = U"(", close = U")", sep = U", ";
        if(spec == U"n") open = close = U"";
        else if(spec == U"m" && t.c.size() == 2) { open = close = U""; sep = U": "; }
        else if(!spec.empty()) throw ref::error{"tuple specification"};
        if(!n) return;
        out += open;
        for(std::size_t i = 0; i < n->e.size(); ++i) { if(i) out += sep; render(*t.c[i], &n->e[i], U"", out); }
        out += close;
        return;
    }
    case ty::RANGE:
    {
        char mode = 0; bool esc = false; const ty& el = *t.c[0];
        u32v open = t.set ? U"{" : U"[", close = t.set ? U"}" : U"]", elem;
        bool pairs = el.k == ty::TUP && el.c.size() == 2, chars = el.k == ty::LEAF && el.leaf == 'c';
        if(!spec.empty())
        {
            if(spec[0] == U'n') mode = 'n', open = close = U"", spec.remove_prefix(1);
            else if(spec[0] == U'm') mode = 'm', open = U"{", close = U"}", spec.remove_prefix(1);
            else if(spec[0] == U's') mode = 's', spec.remove_prefix(1);
            else if(spec.substr(0, 2) == U"?s") mode = 's', esc = true, spec.remove_prefix(2);
            else if(spec[0] != U':') throw ref::error{"range specification"};
            bool has = !spec.empty();
            if(has && spec[0] != U':') throw ref::error{"range specification"};
            if(has) elem = spec.substr(1);
            if(has) { u32 x; render(el, nullptr, elem, x); }
            if(mode == 'm' && !pairs) throw unclaimed{};
            if(mode == 's')
            {
                if(el.k == ty::LEAF && el.leaf != 'c' && el.leaf != 's') throw unclaimed{}; // numbers convert to characters
                if(!n && !chars) return; // an absent element: found out only when there is one
                if(!chars) throw ref::error{"not characters"};
                if(!n) return;
                u32 s; for(auto& e : n->e) s += char32_t(e.v.i);
                if(!esc) out += s; else { auto w = W<C>(s); out += ref::dec<C>(ref::escaped<C>(sv(w), U'"')); }
                return;
            }
            if(mode == 0 && elem.empty() && chars && n) for(auto& e : n->e) if(e.v.i < 32 || e.v.i == '\'' || e.v.i == '\\') throw unclaimed{}; // {::} may escape
        }
        if(!n) { u32 x; render(el, nullptr, elem, x); return; }
        out += open;
        for(std::size_t i = 0; i < n->e.size(); ++i)
        {
            if(i) out += U", ";
            if(mode == 'm' && elem == U"n") { u32 x; render(el, &n->e[i], U"m", x); out += x; }
            else render(el, &n->e[i], mode == 'm' ? U"m" : elem, out);
        }
        out += close;
    }
    }
}

// ---- the typed values
template <typename T> std::vector<T> few(const std::vector<T>& v, std::size_t k)
{
    if(v.size() <= k) return v;
    std::vector<T> r; for(std::size_t i = 0; i < k; ++i) r.push_back(v[i * (v.size() - 1) / (k - 1)]);
    return r;
}
template <typename T> struct gen;
static ty leafty(char l, const char* n) { ty t; t.k = ty::LEAF; t.leaf = l; t.name = n; return t; }
#define LEAF(T, L, ...) template <> struct gen<T> { static const ty& type() { static const ty t = leafty(L, #T); return t; } static std::vector<item<T>> all(int) { return __VA_ARGS__; } }
static node N(val v) { node n; n.v = v; return n; }
LEAF(int, 'i', {{0, N(val::of(0))}, {-12, N(val::of(-12))}, {345, N(val::of(345))}});
LEAF(unsigned char, 'i', {{0, N(val::of(0))}, {200, N(val::of(200))}});
LEAF(long long, 'i', {{7, N(val::of(7))}, {-9223372036854775807ll - 1, N(val::of(-9223372036854775807ll - 1))}});
LEAF(bool, 'b', {{false, N(val::ofb(false))}, {true, N(val::ofb(true))}});
LEAF(double, 'd', {{0.0, N(val::ofd(0))}, {-1.5, N(val::ofd(-1.5))}, {2.25, N(val::ofd(2.25))}});
LEAF(C, 'c', {{C('a'), N(val::ofc('a'))}, {C('"'), N(val::ofc('"'))}, {C('\n'), N(val::ofc('\n'))}, {C('\''), N(val::ofc('\''))}});
LEAF(cp, 'c', {{cp(U'a'), N(val::ofc('a'))}, {cp(U'\u6f22'), N(val::ofc(U'\u6f22'))}, {cp(U'\U0001f351'), N(val::ofc(U'\U0001f351'))}, {cp(U'"'), N(val::ofc('"'))}});
static const std::vector<u32>& texts() { static const std::vector<u32> t{U"", U"q\"\n", U"\u6f22x", U"a text that is longer than any small buffer"}; return t; }
template <typename T, char L> struct gtext
{
    static const ty& type() { static const ty t = leafty(L, "text"); return t; }
    static std::vector<item<T>> all(int) { static const std::vector<str> keep = [] { std::vector<str> v; for(auto& t : texts()) v.push_back(W<C>(t)); return v; }(); std::vector<item<T>> r; for(std::size_t i = 0; i < keep.size(); ++i) r.push_back({T(keep[i]), N(val::ofs(texts()[i]))}); return r; }
};
template <> struct gen<str> : gtext<str, 's'> {};
template <> struct gen<sv> : gtext<sv, 's'> {};
template <> struct gen<papilio::utf::basic_string_container<C>> : gtext<papilio::utf::basic_string_container<C>, 's'> {};
template <> struct gen<papilio::utf::basic_string_ref<C>> : gtext<papilio::utf::basic_string_ref<C>, 's'> {};
LEAF(color, 'e', {{color::red, N(val::ofs(U"red"))}, {color::dark_green, N(val::ofs(U"dark_green"))}, {color::blue, N(val::ofs(U"blue"))}});
template <> struct gen<custom> { static const ty& type() { static const ty t{ty::CUSTOM, 0, false, {}, "custom"}; return t; } static std::vector<item<custom>> all(int) { return {{{1}, N(val::of(1))}, {{2}, N(val::of(2))}}; } };
template <> struct gen<light> { static const ty& type() { static const ty t{ty::LIGHT, 0, false, {}, "light"}; return t; } static std::vector<item<light>> all(int) { node a, b; a.text = U"l1"; b.text = U"l2"; return {{{1}, a}, {{2}, b}}; } };

template <typename E> const ty& rangety(bool set, const char* n) { static const ty t{ty::RANGE, 0, false, {&gen<E>::type()}, "range"}, s{ty::RANGE, 0, true, {&gen<E>::type()}, "set"}; (void)n; return set ? s : t; }
// all sequences of children, as a functor over them
template <typename E, typename F> void sequences(int lv, std::size_t maxn, F f)
{
    const auto ch = lv == 0 ? gen<E>::all(lv + 1) : few(gen<E>::all(lv + 1), 3);
    const std::size_t cap = ch.size() > 8 ? 2 : maxn;
    std::vector<std::size_t> ix;
    std::function<void()> go = [&]
    {
        std::vector<E> v; node n;
        for(auto i : ix) { v.push_back(ch[i].v); n.e.push_back(ch[i].n); }
        f(v, n);
        if(ix.size() == cap) return;
        for(std::size_t i = 0; i < ch.size(); ++i) { ix.push_back(i); go(); ix.pop_back(); }
    };
    go();
}
static std::size_t maxn(int lv) { return lv == 0 ? 3 : 2; }
template <typename R, typename E> struct gseq
{
    static const ty& type() { return rangety<E>(false, "range"); }
    static std::vector<item<R>> all(int lv) { std::vector<item<R>> r; sequences<E>(lv, maxn(lv), [&](std::vector<E>& v, node& n) { r.push_back({R(v.begin(), v.end()), n}); }); return r; }
};
template <typename E> struct gen<std::vector<E>> : gseq<std::vector<E>, E> {};
template <typename E> struct gen<std::list<E>> : gseq<std::list<E>, E> {};
template <typename E> struct gen<std::deque<E>> : gseq<std::deque<E>, E> {};
template <typename E> struct gen<std::forward_list<E>> : gseq<std::forward_list<E>, E> {};
template <typename E> struct gen<std::span<const E>>
{
    static const ty& type() { return rangety<E>(false, "span"); }
    static std::vector<item<std::span<const E>>> all(int lv) { static std::deque<std::vector<E>> keep; std::vector<item<std::span<const E>>> r; for(auto& x : gen<std::vector<E>>::all(lv)) { keep.push_back(x.v); r.push_back({std::span<const E>(keep.back()), x.n}); } return r; }
};
template <typename E, std::size_t S> struct gen<std::array<E, S>>
{
    static const ty& type() { return rangety<E>(false, "array"); }
    static std::vector<item<std::array<E, S>>> all(int lv) { std::vector<item<std::array<E, S>>> r; sequences<E>(lv, S, [&](std::vector<E>& v, node& n) { if(v.size() != S) return; std::array<E, S> a{}; std::copy(v.begin(), v.end(), a.begin()); r.push_back({a, n}); }); return r; }
};
// sets and maps: the children in the order the container has them
template <typename E> struct gen<std::set<E>>
{
    static const ty& type() { return rangety<E>(true, "set"); }
    static std::vector<item<std::set<E>>> all(int lv)
    {
        std::vector<item<std::set<E>>> r;
        const auto ch = few(gen<E>::all(lv + 1), 4);
        for(unsigned m = 0; m < 1u << ch.size(); ++m)
        {
            std::map<E, node> o; for(std::size_t i = 0; i < ch.size(); ++i) if(m >> i & 1) o.emplace(ch[i].v, ch[i].n);
            item<std::set<E>> x; for(auto& [k, n] : o) { x.v.insert(k); x.n.e.push_back(n); }
            r.push_back(x);
        }
        return r;
    }
};
template <typename E> struct gen<std::unordered_set<E>>
{
    static const ty& type() { return rangety<E>(true, "set"); }
    static std::vector<item<std::unordered_set<E>>> all(int lv)
    {
        std::vector<item<std::unordered_set<E>>> r;
        for(auto& s : gen<std::set<E>>::all(lv))
        {
            item<std::unordered_set<E>> x; std::map<E, node> o; std::size_t i = 0;
            for(auto& k : s.v) { o.emplace(k, s.n.e[i++]); x.v.insert(k); }
            for(auto& k : x.v) x.n.e.push_back(o.at(k));
            r.push_back(x);
        }
        return r;
    }
};
template <typename... T> const ty& tuplety() { static const ty t{ty::TUP, 0, false, {&gen<T>::type()...}, "tuple"}; return t; }
template <typename K, typename M> struct gen<std::map<K, M>>
{
    static const ty& type() { static const ty t{ty::RANGE, 0, true, {&tuplety<K, M>()}, "map"}; return t; }
    static std::vector<item<std::map<K, M>>> all(int lv)
    {
        std::vector<item<std::map<K, M>>> r;
        const auto ks = few(gen<K>::all(lv + 1), 3); const auto ms = few(gen<M>::all(lv + 1), lv ? 2 : 4);
        std::vector<std::size_t> c(ks.size(), 0); // 0: absent
        for(;;)
        {
            std::map<K, std::pair<M, node>> o;
            for(std::size_t i = 0; i < ks.size(); ++i) if(c[i]) { node p; p.e = {ks[i].n, ms[c[i] - 1].n}; o.emplace(ks[i].v, std::pair(ms[c[i] - 1].v, p)); }
            item<std::map<K, M>> x; for(auto& [k, p] : o) { x.v.emplace(k, p.first); x.n.e.push_back(p.second); }
            r.push_back(x);
            std::size_t i = 0; while(i < c.size() && ++c[i] > ms.size()) c[i++] = 0;
            if(i == c.size()) return r;
        }
    }
};
template <typename... T> struct gtup
{
    static const ty& type() { return tuplety<T...>(); }
    template <typename R, typename F> static std::vector<item<R>> build(int lv, F make)
    {
        auto ch = std::make_tuple(few(gen<T>::all(lv + 1), lv ? 2 : 6)...);
        std::vector<item<R>> r;
        std::array<std::size_t, sizeof...(T) + 1> c{};
        for(;;)
        {
            [&]<std::size_t... I>(std::index_sequence<I...>) { node n; (n.e.push_back(std::get<I>(ch)[c[I]].n), ...); r.push_back({make(std::get<I>(ch)[c[I]].v...), n}); }(std::index_sequence_for<T...>{});
            std::size_t i = 0; std::array<std::size_t, sizeof...(T) + 1> lim{}; [&]<std::size_t... I>(std::index_sequence<I...>) { ((lim[I] = std::get<I>(ch).size()), ...); }(std::index_sequence_for<T...>{});
            while(i < sizeof...(T) && ++c[i] >= lim[i]) c[i++] = 0;
            if(i == sizeof...(T)) return r;
        }
    }
};
template <typename... T> struct gen<std::tuple<T...>> : gtup<T...> { static std::vector<item<std::tuple<T...>>> all(int lv) { return gtup<T...>::template build<std::tuple<T...>>(lv, [](const T&... x) { return std::tuple<T...>(x...); }); } };
template <typename A, typename B> struct gen<std::pair<A, B>> : gtup<A, B> { static std::vector<item<std::pair<A, B>>> all(int lv) { return gtup<A, B>::template build<std::pair<A, B>>(lv, [](const A& a, const B& b) { return std::pair<A, B>(a, b); }); } };
template <typename A, typename B> struct gen<papilio::compressed_pair<A, B>> : gtup<A, B> { static std::vector<item<papilio::compressed_pair<A, B>>> all(int lv) { return gtup<A, B>::template build<papilio::compressed_pair<A, B>>(lv, [](const A& a, const B& b) { return papilio::compressed_pair<A, B>(a, b); }); } };
static node wrap(int alt, const node& c) { node n; n.v = val::of(alt); n.e = {c}; return n; }
template <typename T> struct gen<std::optional<T>>
{
    static const ty& type() { static const ty t{ty::LIGHT, 0, false, {&gen<T>::type()}, "optional"}; return t; }
    static std::vector<item<std::optional<T>>> all(int lv) { node e; e.text = U"nullopt"; std::vector<item<std::optional<T>>> r{{std::nullopt, e}}; for(auto& x : gen<T>::all(lv + 1)) r.push_back({std::optional<T>(std::in_place, x.v), wrap(0, x.n)}); return r; }
};
template <> struct gen<std::monostate> { static const ty& type() { static const ty t{ty::LIGHT, 0, false, {}, "monostate"}; return t; } static std::vector<item<std::monostate>> all(int) { node n; n.text = U"monostate"; return {{{}, n}}; } };
template <typename... T> struct gen<std::variant<T...>>
{
    static const ty& type() { static const ty t{ty::LIGHT, 0, false, {&gen<T>::type()...}, "variant"}; return t; }
    static std::vector<item<std::variant<T...>>> all(int lv)
    {
        std::vector<item<std::variant<T...>>> r;
        [&]<std::size_t... I>(std::index_sequence<I...>) { (([&] { for(auto& x : gen<T>::all(lv + 1)) r.push_back({std::variant<T...>(std::in_place_index<I>, x.v), wrap(int(I), x.n)}); }()), ...); }(std::index_sequence_for<T...>{});
        return r;
    }
};
#ifdef __cpp_lib_expected
template <typename T, typename E> struct gen<std::expected<T, E>>
{
    static const ty& type() { static const ty t{ty::LIGHT, 0, false, {&gen<T>::type(), &gen<E>::type()}, "expected"}; return t; }
    static std::vector<item<std::expected<T, E>>> all(int lv) { std::vector<item<std::expected<T, E>>> r; for(auto& x : gen<T>::all(lv + 1)) r.push_back({std::expected<T, E>(x.v), wrap(0, x.n)}); for(auto& x : gen<E>::all(lv + 1)) r.push_back({std::expected<T, E>(std::unexpected(x.v)), wrap(1, x.n)}); return r; }
};
#endif
// a joined range and separators
template <typename R> struct joined {};
template <typename R> struct gen<joined<R>>
{
    using J = papilio::joiner<const R, C>;
    static const ty& type() { static const ty t{ty::JOIN, 0, false, {gen<R>::type().c[0]}, "join"}; return t; }
    static std::vector<item<J>> all(int lv)
    {
        static std::deque<R> keep; static const std::vector<std::pair<str, u32>> seps = [] { std::vector<std::pair<str, u32>> v; for(u32 s : {U"", U"-", U" | ", U"\u6f22{}"}) v.push_back({W<C>(s), s}); return v; }();
        std::vector<item<J>> r;
        for(auto& x : gen<R>::all(lv))
        {
            keep.push_back(x.v);
            const R& c = keep.back();
            node n = x.n; n.sep = U", ";
            r.push_back({papilio::join<C>(c), n});
            for(auto& [s, u] : seps) { n.sep = u; r.push_back({papilio::join(c, sv(s)), n}); if(s.size() == 1) r.push_back({papilio::join(c, s.c_str()), n}); }
        }
        return r;
    }
};

// ---- specifications of a type
static std::vector<u32> specs(const ty& t, int depth)
{
    std::vector<u32> r;
    switch(t.k)
    {
    case ty::LEAF: case ty::CUSTOM:
        r = {U"", U">4", U"z", U":", U"n", U"!"};
        if(t.k == ty::CUSTOM) return r;
        switch(t.leaf)
        {
        case 'i': for(u32 s : {U"d", U"02", U"+#x", U"{}", U"0{}d", U"*^6", U"-^{}"}) r.push_back(s); break;
        case 'd': for(u32 s : {U".1f", U"06", U"{}.{}f", U"E"}) r.push_back(s); break;
        case 'b': for(u32 s : {U"d", U"s", U"*^6", U"x"}) r.push_back(s); break;
        case 'c': for(u32 s : {U"d", U"?", U"_^3", U"c", U"\u6f22<{}", U"#x"}) r.push_back(s); break;
        case 's': for(u32 s : {U"s", U"?", U".1", U"_^5.2", U"\u6f22>{}.{}", U"d"}) r.push_back(s); break;
        case 'e': for(u32 s : {U"s", U"*^6", U".2"}) r.push_back(s); break;
        }
        return r;
    case ty::LIGHT: return {U"", U"n", U">5", U":", U"{}"};
    case ty::TUP: return {U"", U"n", U"m", U"nm", U"mn", U">5", U":", U"n:", U"d", U"s", U"?"};
    case ty::JOIN: return specs(*t.c[0], depth);
    case ty::RANGE:
    {
        auto el = specs(*t.c[0], depth + 1);
        std::vector<u32> pre = depth == 0 ? std::vector<u32>{U"", U"n", U"m", U"s", U"?s", U"?", U"ns", U"nm", U">9", U" ", U"s?", U"d"} : std::vector<u32>{U"", U"n", U"m", U"s", U"?s", U"?", U"*<3"};
        for(auto& p : pre) { r.push_back(p); for(auto& e : el) r.push_back(p + U":" + e); }
        return r;
    }
    }
    return r;
}

template <typename T> struct held { using type = T; };
template <typename R> struct held<joined<R>> { using type = papilio::joiner<const R, C>; };
template <typename T> void check_type(vk::S& s)
{
    using V = typename held<T>::type;
    const ty& t = gen<T>::type();
    const auto sp = specs(t, 0);
    const auto vals = vk::thorough() ? gen<T>::all(0) : few(gen<T>::all(0), std::max<std::size_t>(12, 24000 / sp.size()));
    int five = 5, two = 2, nine = 9;
    for(auto& spec : sp)
    {
        const u32 tm = U"<{" + (spec.empty() ? u32() : U":" + spec) + U"}|{}";
        const auto enc = W<C>(tm);
        const bool dyn = spec.find(U'{') != u32::npos;
        // how many of the following arguments the specification takes
        std::size_t take = 0; for(char32_t c : spec) take += c == U'{';
        const u32 next = take == 0 ? U"5" : take == 1 ? U"2" : U"9";
        for(std::size_t i = 0; i < vals.size(); ++i)
        {
            if(!s.next()) continue;
            s.desc(bytes<C>(enc) + " value " + std::to_string(i));
            u32 want; bool err = false, skip = false;
            try { render(t, &vals[i].n, spec, want); } catch(ref::error&) { err = true; } catch(unclaimed&) { skip = true; }
            if(skip) continue;
            s.trans();
            const V& v = vals[i].v;
            auto store = papilio::make_format_args<ctx_t<C>>(v, five, two, nine);
            auto run = [&](sv tmpl, bool& threw) { str got; threw = false; try { got = vfmt<C>(tmpl, store); } catch(const papilio::format_error&) { threw = true; } return got; };
            bool threw; str got = run(sv(enc), threw);
            if(err) s.expect(threw, "expected an error, got [", vk::hex_escape(bytes<C>(got)), "]");
            else
            {
                s.expect(!threw, "refused, expected <", vk::hex_escape(bytes<C>(W<C>(want))));
                s.eq("rendering", bytes<C>(got), bytes<C>(W<C>(U"<" + want + U"|" + next)));
                s.state(vk::hash_str(bytes<C>(got) + s.name));
                if(i % 7 == 0) s.sample(bytes<C>(enc) + " -> " + bytes<C>(got));
            }
            if(i < 2 && !dyn)
            {
                // in a branch that is taken and in one that is not
                const u32 body = U"{0" + (spec.empty() ? u32() : U":" + spec) + U"}";
                auto a = W<C>(U"{$ {1} == 5 ? " + body + U" : 'n'}"), b = W<C>(U"{$ {1} != 5 ? " + body + U" : 'n'}");
                str g1 = run(sv(a), threw); bool t2; str g2 = run(sv(b), t2);
                s.expect(threw == err, "taken branch: ", threw ? "refused" : "not refused");
                if(!err) { s.eq("taken branch", bytes<C>(g1), bytes<C>(W<C>(want))); s.expect(!t2, "skipped branch refused"); s.eq("skipped branch", bytes<C>(g2), "n" == std::string("n") ? bytes<C>(W<C>(U"n")) : ""); }
            }
        }
    }
}
#define SEC(...) vk::section(#__VA_ARGS__, check_type<__VA_ARGS__>)
using std::vector; using std::list; using std::deque; using std::set; using std::map; using std::tuple; using std::pair; using std::optional; using std::variant; using std::array; using std::monostate; using std::span;
int main(int argc, char** argv)
{
#if PARTN == 1
    SEC(vector<int>); SEC(list<int>); SEC(deque<double>); SEC(std::forward_list<unsigned char>); SEC(span<const long long>); SEC(vector<bool>);
    SEC(array<int, 0>); SEC(array<int, 2>); SEC(set<int>); SEC(std::unordered_set<int>); SEC(set<str>);
    SEC(vector<str>); SEC(list<sv>); SEC(deque<papilio::utf::basic_string_container<C>>); SEC(vector<papilio::utf::basic_string_ref<C>>); 
    SEC(vector<C>); SEC(list<C>); SEC(list<cp>); SEC(set<cp>); SEC(vector<color>); SEC(vector<custom>); SEC(list<light>);
    SEC(map<int, str>); SEC(map<str, int>); SEC(vector<pair<int, C>>); SEC(set<pair<int, int>>); SEC(list<tuple<int, int, int>>); SEC(vector<tuple<>>);
    SEC(joined<vector<int>>); SEC(joined<list<str>>); SEC(joined<set<cp>>); SEC(joined<map<int, str>>); SEC(joined<vector<light>>); SEC(joined<vector<custom>>);
#elif PARTN == 2
    SEC(vector<vector<int>>); SEC(list<set<C>>); SEC(vector<map<int, str>>); SEC(map<str, vector<int>>); SEC(vector<list<str>>); SEC(deque<array<int, 2>>); SEC(array<array<int, 2>, 2>); SEC(vector<vector<vector<int>>>); SEC(map<int, map<int, int>>); SEC(set<vector<str>>);
    SEC(tuple<>); SEC(tuple<int>); SEC(pair<int, str>); SEC(tuple<C, str, bool>); SEC(tuple<vector<int>, pair<C, double>>); SEC(tuple<array<int, 2>, tuple<>, set<str>>); SEC(papilio::compressed_pair<int, str>); SEC(pair<pair<int, int>, pair<str, C>>); SEC(tuple<optional<int>, variant<monostate, int, str>, light, custom>);
    SEC(optional<int>); SEC(optional<str>); SEC(optional<optional<int>>); SEC(optional<vector<str>>); SEC(vector<optional<int>>); SEC(map<str, optional<C>>); SEC(variant<monostate, int, str>); SEC(variant<vector<int>, tuple<int, str>>); SEC(vector<variant<monostate, int, str>>); SEC(optional<variant<int, optional<str>>>);
    SEC(joined<vector<vector<int>>>); SEC(joined<vector<optional<int>>>); SEC(joined<list<tuple<int, int>>>); SEC(joined<vector<array<int, 2>>>); SEC(joined<list<map<int, int>>>);
#ifdef __cpp_lib_expected
    SEC(std::expected<int, str>); SEC(vector<std::expected<str, int>>); SEC(std::expected<vector<int>, optional<str>>); SEC(tuple<std::expected<int, int>, int>);
#endif
#endif
    return vk::main(argc, argv, "C16");
}
