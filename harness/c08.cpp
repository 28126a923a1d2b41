// C08: every output route produces the same text
#include "world.hpp"
#include <deque>
#include <list>
#ifndef CH
#define CH char
#endif
// every kind of output iterator instantiates the whole library once more: a part takes some of them
enum { PTR = 1, VEC = 2, LST = 4, DEQ = 8, STRICT = 16, SBUF = 32, NPTR = 64, NBACK = 128, PRINT = 256 };
#ifndef ROUTES
#define ROUTES 511
#endif
#define R(x) if constexpr((ROUTES & (x)) != 0)
using C = CH;
using str = std::basic_string<C>;
using sv = std::basic_string_view<C>;
static constexpr bool narrow = std::is_same_v<C, char>, wide = std::is_same_v<C, wchar_t>;

// a single-pass output iterator that checks how it is used: it may be advanced
// only after an assignment, stale copies may not be written through
struct strict
{
    struct sink { str out; std::size_t pos = 0; std::string misuse; };
    using iterator_category = std::output_iterator_tag; using value_type = C; using difference_type = std::ptrdiff_t; using pointer = void; using reference = void;
    sink* s; std::size_t pos = 0;
    struct ref { strict* it; const ref& operator=(const C& c) const { auto& k = *it->s; if(it->pos != k.pos) k.misuse = "write through a stale copy"; else if(k.out.size() != k.pos) k.misuse = "two writes without an increment"; else k.out += c; return *this; } };
    ref operator*() { return {this}; }
    strict& operator++() { ++pos; if(pos == s->pos + 1) s->pos = pos; if(s->out.size() != s->pos) s->misuse = "increment without a write"; return *this; }
    strict operator++(int) { strict t = *this; ++*this; return t; }
};
template <typename C2> struct guard // exact-size buffer followed by canaries
{
    std::vector<C2> v; std::size_t n;
    explicit guard(std::size_t n) : v(n + 16, C2(0x5a)), n(n) {}
    C2* p() { return v.data(); }
    bool intact(std::size_t from) const { for(std::size_t i = from; i < v.size(); ++i) if(v[i] != C2(0x5a)) return false; return true; }
};

struct fixture
{
    int i = 42; str t = W<C>(U"a\u00e9\u6f22"); double d = -2.5; obj<C> o{W<C>(U"ob")}; std::vector<int> v{1, 2, 3}; bool b = true; str nm = W<C>(U"nm"), nv = W<C>(U"named"); int w = 6; C c = C('z');
    template <typename F> decltype(auto) with(F f) { return f(i, t, d, o, v, b, w, c, papilio::arg(sv(nm), nv)); }
};
static void same(vk::S& s, const char* route, const str& got, const str& want)
{
    if(s.ok() && got != want) s.fail(std::string(route) + ": [" + vk::hex_escape(bytes<C>(got)) + "], vformat gives [" + vk::hex_escape(bytes<C>(want)) + "]");
}
// does the call throw, and if not, what does it give
template <typename F> static void route(vk::S& s, const char* name, const real<C>& base, F f)
{
    if(!s.ok()) return;
    s.trans();
    auto r = attempt<C>(f);
    if(r.foreign) return s.fail(std::string(name) + ": foreign exception");
    if(r.threw != base.threw) return s.fail(std::string(name) + (r.threw ? ": throws " + r.what + ", vformat does not" : ": gives [" + vk::hex_escape(bytes<C>(r.text)) + "], vformat throws"));
    if(!r.threw) same(s, name, r.text, base.text);
}
static std::locale& classic() { static std::locale l = std::locale::classic(); return l; }
static str ascii_widen(const std::string& n) { return str(n.begin(), n.end()); }

static void all_routes(vk::S& s, const ref::u32& t)
{
    auto enc = W<C>(t); s.desc(bytes<C>(enc));
    exact<C> e(enc); sv f = e.view(); fixture x;
    auto base = attempt<C>([&] { return x.with([&](auto&&... a) { return vfmt<C>(f, papilio::make_format_args<ctx_t<C>>(a...)); }); });
    s.sample("[" + bytes<C>(enc) + "] -> " + (base.threw ? "exception" : "[" + bytes<C>(base.text) + "]"));
    s.state(vk::hash_str(bytes<C>(base.text)));
    std::size_t size = base.text.size();
    str prefix; // what an appending route had written when the call ended
    x.with([&](auto&&... a)
    {
        route(s, "format", base, [&] { return papilio::format(f, a...); });
        route(s, "format(const CharT*)", base, [&] { return papilio::format(enc.c_str(), a...); });
        route(s, "format(string)", base, [&] { return papilio::format(enc, a...); });
        if constexpr(narrow || wide)
        {
            route(s, "format(locale)", base, [&] { return papilio::format(classic(), f, a...); });
            route(s, "vformat(locale)", base, [&] { return papilio::vformat(classic(), f, papilio::make_format_args<ctx_t<C>>(a...)); });
            route(s, "format_to(locale)", base, [&] { str r; papilio::format_to(std::back_inserter(r), classic(), f, a...); return r; });
        }
        else route(s, "vformat", base, [&] { return papilio::vformat(f, papilio::make_format_args<ctx_t<C>>(a...)); });
        route(s, "dynamic store", base, [&] { papilio::basic_dynamic_format_args<ctx_t<C>, C> d; d.append(a...); return vfmt<C>(f, d); });
        route(s, "format_to(back_inserter string)", base, [&] { str r = W<C>(U"pre"); papilio::format_to(std::back_inserter(r), f, a...); if(r.compare(0, 3, W<C>(U"pre"))) return r; return r.substr(3); });
        R(VEC) route(s, "format_to(back_inserter vector)", base, [&] { std::vector<C> r; papilio::format_to(std::back_inserter(r), f, a...); return str(r.begin(), r.end()); });
        R(LST) route(s, "format_to(list inserter)", base, [&] { std::list<C> r(1, C('$')); papilio::format_to(std::inserter(r, r.begin()), f, a...); r.pop_back(); return str(r.begin(), r.end()); });
        if(base.threw)
        {
            // nothing but a prefix of the complete output may have been written: same on every route
            str p1; try { papilio::format_to(std::back_inserter(p1), f, a...); } catch(...) {}
            prefix = p1;
            R(PTR) { guard<C> g(p1.size()); try { papilio::format_to(g.p(), f, a...); } catch(...) {}
            same(s, "what format_to(pointer) wrote before the exception", str(g.p(), g.p() + g.n), p1);
            if(!g.intact(g.n) && s.ok()) s.fail("format_to(pointer) wrote past what format_to(back_inserter) wrote before the exception"); }
        }
        else
        {
            R(PTR) route(s, "format_to(pointer)", base, [&] { guard<C> g(size); auto end = papilio::format_to(g.p(), f, a...); if(end != g.p() + size) return W<C>(U"wrong end"); if(!g.intact(size)) return W<C>(U"written past the end"); return str(g.p(), g.p() + size); });
            R(DEQ) route(s, "format_to(deque iterator)", base, [&] { std::deque<C> r(size + 1); auto end = papilio::format_to(r.begin(), f, a...); if(end != r.end() - 1) return W<C>(U"wrong end"); r.pop_back(); return str(r.begin(), r.end()); });
            R(STRICT) route(s, "format_to(single-pass iterator)", base, [&] { strict::sink k; papilio::format_to(strict{&k}, f, a...); if(!k.misuse.empty()) return ascii_widen(k.misuse); return k.out; });
        }
        route(s, "formatted_size", base, [&] { return str(papilio::formatted_size(f, a...), C('.')).size() == size ? base.text : W<C>(U"wrong size"); });
        if constexpr(narrow || wide) route(s, "formatted_size(locale)", base, [&] { return papilio::formatted_size(classic(), f, a...) == size ? base.text : W<C>(U"wrong size"); });
        if constexpr(narrow || wide)
        {
            R(SBUF) route(s, "format_to(ostreambuf_iterator)", base, [&] { std::basic_ostringstream<C> o; papilio::format_to(std::ostreambuf_iterator<C>(o), f, a...); return o.str(); });
        }
        // lazy evaluation, element by element; moved into a new iterator, or assigned over one, at every position
        auto args = papilio::make_format_args<ctx_t<C>>(a...);
        using fr = papilio::formatted_range<C>;
        route(s, "formatted_range", base, [&] { fr r(f, args); str out; for(C c : r) out += c; return out; });
        auto moved = [&](std::size_t at, bool assign)
        {
            fr r(f, args); str out; std::size_t k = 0;
            auto it = r.begin();
            auto rest = [&](auto& j) { for(; !(j == r.end()); ++j) { out += *j; out.size() > size + 99 ? throw std::runtime_error("endless") : void(); } };
            for(; k < at && !(it == r.end()); ++it, ++k) out += *it;
            if(assign) { fr q(W<C>(U"other{}"), args); auto j = q.begin(); ++j; j = std::move(it); rest(j); }
            else { auto j = std::move(it); rest(j); }
            return out;
        };
        if(!base.threw) for(std::size_t k = 0; k <= size && s.ok(); k += k < 8 ? 1 : 5)
        {
            route(s, ("formatted_range moved at " + std::to_string(k)).c_str(), base, [&] { return moved(k, false); });
            route(s, ("formatted_range assigned at " + std::to_string(k)).c_str(), base, [&] { return moved(k, true); });
        }
        // the first n characters
        auto first = [&](std::size_t n)
        {
            std::string nn = " n=" + std::to_string(n);
            std::size_t total = base.threw ? prefix.size() : size; const str& full = base.threw ? prefix : base.text;
            std::size_t m = std::min(n, total);
            auto bad = [&](const char* w) { if(s.ok()) s.fail("format_to_n" + nn + ": " + w); };
            s.trans(2);
            R(NPTR) {
                guard<C> g(m); bool threw = false;
                try { auto r = papilio::format_to_n(g.p(), std::ptrdiff_t(n), f, a...); if(r.out != g.p() + m) bad("wrong end"); if(std::size_t(r.size) != m) bad("wrong size"); }
                catch(const std::exception&) { threw = true; }
                if(threw && !base.threw) bad("throws");
                if(!threw && base.threw && n > total) bad("does not throw");
                if(!g.intact(m)) bad("wrote past the end");
                if(s.ok()) same(s, ("format_to_n" + nn).c_str(), str(g.p(), g.p() + m), full.substr(0, m));
            }
            R(NBACK) {
                str r; bool threw = false;
                try { auto q = papilio::format_to_n(std::back_inserter(r), std::ptrdiff_t(n), f, a...); if(std::size_t(q.size) != m) bad("wrong size (back_inserter)"); *q.out++ = C('!'); if(r.empty() || r.back() != C('!')) bad("returned iterator does not continue"); else r.pop_back(); }
                catch(const std::exception&) { threw = true; }
                if(threw && !base.threw) bad("throws (back_inserter)");
                if(s.ok()) same(s, ("format_to_n back_inserter" + nn).c_str(), r, full.substr(0, m));
            }
        };
        std::size_t lim = base.threw ? prefix.size() : size;
        for(std::size_t n = 0; n <= lim + 2 && s.ok(); n += (lim > 40 && n > 10 && n + 8 < lim) ? 5 : 1) first(n);
        if(s.ok()) first(100000);
        // files and streams
        if constexpr(narrow && (ROUTES & PRINT))
        {
            auto file = [&](auto p) { char* b = nullptr; std::size_t l = 0; FILE* m = open_memstream(&b, &l); try { p(m); } catch(...) { fclose(m); free(b); throw; } fclose(m); str r(b, l); free(b); return r; };
            auto out = [&](auto p) { char* b = nullptr; std::size_t l = 0; FILE* m = open_memstream(&b, &l); FILE* old = stdout; stdout = m; try { p(); } catch(...) { stdout = old; fclose(m); free(b); throw; } stdout = old; fclose(m); str r(b, l); free(b); return r; };
            auto line = base; line.text += '\n';
            route(s, "print(FILE*)", base, [&] { return file([&](FILE* m) { papilio::print(m, f, a...); }); });
            route(s, "println(FILE*)", line, [&] { return file([&](FILE* m) { papilio::println(m, f, a...); }); });
            route(s, "print", base, [&] { return out([&] { papilio::print(f, a...); }); });
            route(s, "println", line, [&] { return out([&] { papilio::println(f, a...); }); });
            route(s, "print(text_style())", base, [&] { return out([&] { papilio::print(papilio::text_style(), f, a...); }); });
            route(s, "println(text_style())", line, [&] { return out([&] { papilio::println(papilio::text_style(), f, a...); }); });
            route(s, "print(ostream)", base, [&] { std::ostringstream o; papilio::print(o, f, a...); return o.str(); });
            route(s, "println(ostream)", line, [&] { std::ostringstream o; papilio::println(o, f, a...); return o.str(); });
        }
    });
}
int main(int argc, char** argv)
{
    static const char32_t* tok[] = {U"{}", U"{0:>{6}}", U"{1}", U"{1:\u6f22^11.3}", U"{2:+08.3f}", U"{3:q}", U"{4}", U"{nm:?}", U"{$ {5} ? '\u00e9' : {3:w}}", U"{$ !{5} ? 'x'}", U"{7}", U"li\u6f22", U"}}{{", U"{1[5:]}", U"{nope}", U"{0:Q}"};
    vk::section("routes", [](vk::S& s)
    {
        { if(s.enter(0, vk::S::owner(0))) all_routes(s, U""); }
        vk::token_tree(s, sizeof tok / sizeof *tok, (narrow ? 3 : 2) + (vk::thorough() ? 1 : 0), 1, [&](const std::vector<int>& ix, bool run)
        {
            ref::u32 t; for(int i : ix) t += tok[i];
            if(run) all_routes(s, t);
            return true;
        });
    });
    vk::section("sizes", [](vk::S& s)
    {
        for(int w = 0; w < 300; w += w < 70 || vk::thorough() ? 1 : 13) for(int k = 0; k < 3; ++k)
        {
            if(!s.next()) continue;
            ref::u32 n = w ? ref::A(std::to_string(w)) : ref::u32();
            all_routes(s, k == 0 ? U"{0:*^" + n + U"}" : k == 1 ? U"{1:\u6f22>" + n + U"}{2}" : U"{0}" + ref::u32(w, U'-') + U"{1}");
        }
    });
    if constexpr(narrow) vk::section("empty lines", [](vk::S& s)
    {
        if(!s.next()) return;
        char* b = nullptr; std::size_t l = 0; FILE* m = open_memstream(&b, &l); papilio::println(m); fclose(m);
        s.eq("println(FILE*)", std::string(b, l), "\n"); free(b);
        std::ostringstream o; papilio::println(o); s.eq("println(ostream)", o.str(), "\n");
    });
    return vk::main(argc, argv, "C08");
}
