// C19: a failure in the middle of formatting propagates, leaks nothing, corrupts nothing
#include "world.hpp"
#include <papilio/color.hpp>
#include <papilio/print.hpp>
#include <papilio/formatter/chrono.hpp>
#include <papilio/formatter/filesystem.hpp>
#include <papilio/formatter/misc.hpp>
#include <deque>
#include <list>
#include <new>
#include <system_error>
#ifndef CH
#define CH char
#endif
using C = CH;
using str = std::basic_string<C>;
using sv = std::basic_string_view<C>;
using ref::u32; using ref::u32v;

// ---- the faults: one point of one kind fails
enum kind { ALLOC, WRITE, CALL, NKINDS };
static const char* const kname[] = {"allocation", "write", "user call"};
struct oom : std::bad_alloc { long n; explicit oom(long x) : n(x) {} };
struct boom { kind k; long n; };
struct boom2 : std::out_of_range { long n; explicit boom2(long x) : std::out_of_range("user"), n(x) {} };
static struct faults_t { bool armed = false; long left[NKINDS] = {-1, -1, -1}, seen[NKINDS] = {0, 0, 0}; bool std_exception = false; } F;
static long live = 0;
static bool hit(kind k)
{
    if(!F.armed) return false;
    ++F.seen[k];
    return F.left[k] >= 0 && F.left[k]-- == 0;
}
static void call_point() { if(hit(CALL)) { if(F.std_exception) throw boom2(F.seen[CALL]); throw boom{CALL, F.seen[CALL]}; } }
static void* get(std::size_t n) { if(hit(ALLOC)) throw oom(F.seen[ALLOC]); ++live; void* p = std::malloc(n ? n : 1); if(!p) throw std::bad_alloc(); return p; }
static void put(void* p) noexcept { if(p) { --live; std::free(p); } }
void* operator new(std::size_t n) { return get(n); }
void* operator new[](std::size_t n) { return get(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return get(n); } catch(...) { return nullptr; } }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { try { return get(n); } catch(...) { return nullptr; } }
void operator delete(void* p) noexcept { put(p); }
void operator delete[](void* p) noexcept { put(p); }
void operator delete(void* p, std::size_t) noexcept { put(p); }
void operator delete[](void* p, std::size_t) noexcept { put(p); }

// what has been written, without allocating
struct sink { C b[4096]; std::size_t n = 0; void add(C c) { if(n < 4096) b[n++] = c; } str text() const { return str(b, n); } };
struct out_it
{
    using iterator_category = std::output_iterator_tag; using value_type = void; using difference_type = std::ptrdiff_t; using pointer = void; using reference = void;
    sink* s = nullptr;
    out_it& operator*() { return *this; }
    out_it& operator=(C c) { if(hit(WRITE)) throw boom{WRITE, F.seen[WRITE]}; s->add(c); return *this; }
    out_it& operator++() { return *this; }
    out_it operator++(int) { return *this; }
};

// ---- user types: every call is a failure point
static long objects = 0;
struct U
{
    int v;
    U(int x) : v(x) { ++objects; }
    U(const U& o) : v(o.v) { ++objects; }
    ~U() { --objects; }
    U& operator=(const U&) = default;
};
struct light { int v; };
struct found { int v; };
struct streamed { int v; };
struct chars { int n; };   // a range of the user's
template <typename FC> auto format(const found& a, FC& ctx) { call_point(); using t = papilio::format_context_traits<FC>; t::append(ctx, C('f')); call_point(); t::append(ctx, C('0' + a.v)); return ctx.out(); }
static std::basic_ostream<C>& operator<<(std::basic_ostream<C>& o, const streamed& x) { call_point(); o << x.v; call_point(); for(int i = 0; i < 40; ++i) o << C('a' + i % 26); call_point(); return o; }
struct chars_it
{
    using value_type = int; using difference_type = std::ptrdiff_t; using iterator_category = std::input_iterator_tag; using reference = int; using pointer = void;
    int i = 0;
    int operator*() const { call_point(); return i * 11; }
    chars_it& operator++() { call_point(); ++i; return *this; }
    chars_it operator++(int) { auto r = *this; ++*this; return r; }
    bool operator==(const chars_it& o) const { return i == o.i; }
};
inline chars_it begin(const chars&) { call_point(); return {0}; }
inline chars_it end(const chars& c) { return {c.n}; }
namespace papilio
{
template <typename Ch> class formatter<U, Ch>
{
    int m_c = 0;
public:
    formatter() = default;
    template <typename PC> auto parse(PC& c) -> typename PC::iterator { call_point(); auto it = c.begin(); if(it != c.end() && *it == U'!') { m_c = 1; ++it; } call_point(); return it; }
    template <typename FC> auto format(const U& u, FC& ctx) const { using t = format_context_traits<FC>; call_point(); t::append(ctx, Ch('u')); str tmp(30, Ch('0' + u.v)); t::append(ctx, sv(tmp).substr(0, 2)); call_point(); if(m_c) t::format_to(ctx, PAPILIO_TSTRING_VIEW(Ch, "<{:>3}>"), u.v); call_point(); return ctx.out(); }
};
template <typename Ch> class formatter<light, Ch>
{
public:
    template <typename PC, typename FC> auto format(const light& l, PC&, FC& ctx) const -> typename FC::iterator { using t = format_context_traits<FC>; call_point(); t::append(ctx, Ch('l')); t::append(ctx, Ch('0' + l.v)); call_point(); return ctx.out(); }
};
template <typename Context> struct accessor<U, Context>
{
    using arg_t = basic_format_arg<Context>;
    static arg_t index(const U& u, ssize_t i) { call_point(); return arg_t(int(u.v * 10 + i)); }
    static arg_t index(const U& u, index_range) { call_point(); return arg_t(papilio::independent, U(u.v + 1)); }
    static arg_t index(const U&, const utf::basic_string_container<typename Context::char_type>& k) { call_point(); return arg_t(papilio::independent, str(sv(k)) + str(30, C('k'))); }
    static arg_t attribute(const U& u, const basic_attribute_name<typename Context::char_type>& a)
    {
        call_point();
        if(a == sv(W<C>(U"self"))) return arg_t(u);
        if(a == sv(W<C>(U"long"))) return arg_t(papilio::independent, str(40, C('L')));
        throw_invalid_attribute(a);
    }
};
} // namespace papilio

// ---- the arguments, made before anything can fail
struct values
{
    int i = -42; str s = W<C>(U"s\u6f22 text \"q\" that is not short at all"); U u{1}; std::vector<int> v{1, 22, 333}; std::vector<U> vu{U(2), U(3)}; std::map<str, int, std::less<>> m{{W<C>(U"key"), 5}, {W<C>(U"a key longer than the small buffer"), 6}};
    double d = 1234.5678; streamed st{7}; std::optional<U> o{U(4)}; std::tuple<int, U, str> t{8, U(5), W<C>(U"tup")}; papilio::joiner<const std::vector<U>, C> j{papilio::join<C>(std::as_const(vu))}; std::tm tm{};
    found f{6}; light l{9}; chars c{3}; std::variant<int, U> va{U(7)}; std::vector<std::vector<str>> vv{{W<C>(U"x")}, {W<C>(U"y"), W<C>(U"z")}}; long double big = 1e300L; std::filesystem::path p{"dir/file name that is long enough"};
    U named{8};
    str n_u = W<C>(U"user"), n_i = W<C>(U"a_name_longer_than_a_small_buffer");
    values() { tm.tm_year = 124; tm.tm_mon = 1; tm.tm_mday = 29; tm.tm_hour = 23; tm.tm_wday = 4; tm.tm_yday = 59; }
    template <typename Fn> decltype(auto) with(Fn fn) const
    {
        return fn(i, s, u, v, vu, m, d, st, o, t, j, tm, f, l, c, va, vv, big, p, papilio::arg(sv(n_u), named), papilio::arg(sv(n_i), i));
    }
};
static const std::vector<u32>& corpus()
{
    static const std::vector<u32> v{
        U"", U"a literal with {{ and }} and \u6f22", U"{0}|{0:>12}|{0:#x}|{0:*^40}", U"{1}", U"{1:?}", U"{1:*>50.20}", U"{1[0]}{1[2:]}{1[-1]}{1.length}", U"{2}", U"{2:!}-{2[4]}-{2[1:2]}-{2.self[7]}-{2.long:>50}",
        U"{3}{3:n:04}{3[1]}{3[1:]}", U"{4}", U"{4:n:!}", U"{5}{5:m}{5['key']}{5['a key longer than the small buffer']}", U"{6:.3f}{6:e}{6:300.200f}", U"{7}|{7:>60}|{7:.3}", U"{8}{8.value}", U"{9}{9:n}{9[1]:!}{9[2]}", U"{10}{10:!}",
        U"{11}|{11:%Y-%m-%d}|{11:>40%A}|{11.year}", U"{12}{13}", U"{14}{14:n:03}", U"{15}{15.index}", U"{16}{16:n:n:>3}{16[1][0]}", U"{17:f}", U"{17:.1000e}", U"{18}{18:>50}{18:?}",
        U"{user}{user:!}{user.self}{a_name_longer_than_a_small_buffer:{20}}", U"{}{}{}{}{}", U"{$ {0} < 0 ? {2} : {4}}", U"{$ {1} == 'a text that is also longer than small' ? 'no' : {2.long} == {1} ? 'no' : {user:!}}", U"{$ !{2.long} ? 'n' : 'text {{ \\n'}{0}", U"{$ {5['key']} >= 5.0 : '<{0}>'}{2}",
        U"{2['k']}{2[\"other key that is longer\"]:_^80}", U"{0:{0}}", U"{99}", U"{2.nothing}", U"{2.nothing_that_is_longer_than_a_small_buffer}", U"{0", U"x{2:!bad}", U"{5['none']}", U"{2}{19}", U"{1:d}{2}",
    };
    return v;
}

// ---- the ways in
struct op { const char* name; bool fresh; std::function<void(const values&, sv, sink&)> run; bool writes = false; };
template <typename It> using ctx_for = papilio::basic_format_context<It, C>;
static std::vector<op>& ops()
{
    static const std::locale loc = std::locale::classic();
    static std::vector<op> r = []
    {
        std::vector<op> r;
        auto copy = [](const auto& t, sink& s) { for(C c : t) s.add(c); };
        r.push_back({"vformat", false, [copy](const values& a, sv t, sink& s) { a.with([&](auto&&... x) { str g; g = papilio::vformat(t, papilio::make_format_args<ctx_t<C>>(x...)); copy(g, s); }); }});
        r.push_back({"vformat with a locale", false, [copy](const values& a, sv t, sink& s) { a.with([&](auto&&... x) { copy(papilio::vformat(loc, t, papilio::make_format_args<ctx_t<C>>(x...)), s); }); }});
        r.push_back({"dynamic store", false, [copy](const values& a, sv t, sink& s) { papilio::basic_dynamic_format_args<ctx_t<C>, C> d; a.with([&](auto&&... x) { (d.emplace(x), ...); }); copy(papilio::vformat(t, d), s); }});
        r.push_back({"vformat_to an iterator", false, [](const values& a, sv t, sink& s) { a.with([&](auto&&... x) { papilio::vformat_to(out_it{&s}, t, papilio::make_format_args<ctx_for<out_it>>(x...)); }); }, true});
        r.push_back({"vformat_to an iterator with a locale", false, [](const values& a, sv t, sink& s) { a.with([&](auto&&... x) { papilio::vformat_to(out_it{&s}, loc, t, papilio::make_format_args<ctx_for<out_it>>(x...)); }); }, true});
        r.push_back({"vformat_to a growing string", false, [](const values& a, sv t, sink& s) { str g; try { a.with([&](auto&&... x) { papilio::vformat_to(std::back_inserter(g), t, papilio::make_format_args<ctx_t<C>>(x...)); }); } catch(...) { for(C c : g) s.add(c); throw; } for(C c : g) s.add(c); }});
        r.push_back({"vformat_to a list", false, [](const values& a, sv t, sink& s) { std::list<C> g; using it = std::back_insert_iterator<std::list<C>>; try { a.with([&](auto&&... x) { papilio::vformat_to(it(g), t, papilio::make_format_args<ctx_for<it>>(x...)); }); } catch(...) { for(C c : g) s.add(c); throw; } for(C c : g) s.add(c); }});
        r.push_back({"formatted_range", false, [](const values& a, sv t, sink& s) { a.with([&](auto&&... x) { const auto st = papilio::make_format_args<ctx_t<C>>(x...); papilio::formatted_range<C> fr(t, st); for(auto it = fr.begin(); it != fr.end(); ++it) s.add(*it); }); }});
        for(int n : {1000000, 5})
            r.push_back({n == 5 ? "format_to_n 5" : "format_to_n all", false, [n](const values& a, sv t, sink& s) { a.with([&](auto&&... x) { papilio::format_to_n(out_it{&s}, n, t, x...); }); }, true});
        r.push_back({"formatted_size", false, [](const values& a, sv t, sink& s) { a.with([&](auto&&... x) { auto n = papilio::formatted_size(t, x...); while(n--) s.add(C('#')); }); }});
        return r;
    }();
    return r;
}
// runs op; what happened
struct result { enum { TEXT, FORMAT_ERROR, OTHER, OOM, BOOM, BOOM2 } k; long n = 0; std::string what; str out; long seen[NKINDS]; };
static result attempt(const op& o, const values& a, sv t, kind k, long at, bool std_ex)
{
    static sink s; s.n = 0;
    result r{result::TEXT};
    for(int i = 0; i < NKINDS; ++i) F.left[i] = -1, F.seen[i] = 0;
    if(at >= 0) F.left[k] = at;
    F.std_exception = std_ex;
    const long before = live, obj = objects;
    F.armed = true;
    try { o.run(a, t, s); F.armed = false; }
    catch(const oom& e) { F.armed = false; r.k = result::OOM; r.n = e.n; }
    catch(const boom& e) { F.armed = false; r.k = result::BOOM; r.n = e.n; }
    catch(const boom2& e) { F.armed = false; r.k = result::BOOM2; r.n = e.n; }
    catch(const papilio::format_error&) { F.armed = false; r.k = result::FORMAT_ERROR; }
    catch(const std::exception& e) { F.armed = false; r.k = result::OTHER; }
    catch(...) { F.armed = false; r.k = result::OTHER; }
    const long after = live;
    for(int i = 0; i < NKINDS; ++i) r.seen[i] = F.seen[i];
    r.out = s.text();
    if(after != before) r.what = "allocations not released: " + std::to_string(after - before);
    if(objects != obj) r.what += " objects not destroyed: " + std::to_string(objects - obj);
    return r;
}
static bool prefix(const str& p, const str& f) { return p.size() <= f.size() && f.compare(0, p.size(), p) == 0; }
static void judge(vk::S& s, const result& r, const result& full, kind k, long at, bool std_ex)
{
    s.trans();
    s.expect(r.what.empty(), r.what);
    s.expect(prefix(r.out, full.out), "not the beginning of the full output: [", vk::hex_escape(bytes<C>(r.out)), "] of [", vk::hex_escape(bytes<C>(full.out)), "]");
    auto wantk = k == ALLOC ? result::OOM : k == CALL && std_ex ? result::BOOM2 : result::BOOM;
    s.expect(r.k == wantk && r.n == at + 1, "the failure did not reach the caller: ", r.k == result::TEXT ? "no exception" : r.k == result::FORMAT_ERROR ? "a format error" : "another exception");
    s.state(vk::hash_str(bytes<C>(r.out) + s.name + char('0' + k)));
}
static void clean(vk::S& s, const result& again, const result& full)
{
    s.expect(again.k == full.k && again.what.empty(), "repeating it gives another outcome ", again.what);
    s.eq("repeated output", bytes<C>(again.out), bytes<C>(full.out));
}

int main(int argc, char** argv)
{
    static const values a;
    for(auto& o : ops())
        vk::section(o.name, [&o](vk::S& s)
        {
            for(auto& tm : corpus())
            {
                const str t = W<C>(tm);
                attempt(o, a, t, ALLOC, -1, false); // lets the library and the locale initialise themselves
                const result full = attempt(o, a, t, ALLOC, -1, false);
                if(s.next())
                {
                    s.desc(bytes<C>(t) + " without failure");
                    s.expect(full.what.empty(), full.what); s.expect(full.k <= result::OTHER, "failed by itself");
                    s.sample(bytes<C>(t) + ": " + std::to_string(full.seen[ALLOC]) + " allocations, " + std::to_string(full.seen[WRITE]) + " writes, " + std::to_string(full.seen[CALL]) + " calls");
                }
                for(int k = 0; k < NKINDS; ++k) for(int sx = 0; sx < (k == CALL ? 2 : 1); ++sx) for(long n = 0; n < full.seen[k]; ++n)
                {
                    if(!s.next()) continue;
                    s.desc(bytes<C>(t) + " " + kname[k] + " " + std::to_string(n + 1) + " of " + std::to_string(full.seen[k]) + (sx ? " fails with a standard exception" : " fails"));
                    judge(s, attempt(o, a, t, kind(k), n, sx), full, kind(k), n, sx);
                    clean(s, attempt(o, a, t, ALLOC, -1, false), full);
                }
                // two failures one after the other, then success
                long total = 0; for(long x : full.seen) total += x;
                if(total * total > (vk::thorough() ? 40000 : 900)) continue;
                for(int k = 0; k < NKINDS; ++k) for(long n = 0; n < full.seen[k]; ++n) for(int k2 = 0; k2 < NKINDS; ++k2) for(long n2 = 0; n2 < full.seen[k2]; ++n2)
                {
                    if(!s.next()) continue;
                    s.desc(bytes<C>(t) + " " + kname[k] + " " + std::to_string(n + 1) + " fails, then " + kname[k2] + " " + std::to_string(n2 + 1));
                    judge(s, attempt(o, a, t, kind(k), n, false), full, kind(k), n, false);
                    judge(s, attempt(o, a, t, kind(k2), n2, false), full, kind(k2), n2, false);
                    clean(s, attempt(o, a, t, ALLOC, -1, false), full);
                }
            }
        });
    // one store used again and again
    vk::section("the same store", [](vk::S& s)
    {
        for(int dyn = 0; dyn < 2; ++dyn)
        {
            papilio::basic_dynamic_format_args<ctx_t<C>, C> d; a.with([&](auto&&... x) { (d.emplace(x), ...); });
            a.with([&](auto&&... x)
            {
                const auto st = papilio::make_format_args<ctx_t<C>>(x...);
                op o{"", false, [&](const values&, sv t, sink& k) { str g = dyn ? papilio::vformat(t, d) : papilio::vformat(t, st); for(C c : g) k.add(c); }};
                for(auto& tm : corpus())
                {
                    const str t = W<C>(tm);
                    attempt(o, a, t, ALLOC, -1, false);
                    const result full = attempt(o, a, t, ALLOC, -1, false);
                    if(!s.next()) continue;
                    s.desc(bytes<C>(t) + (dyn ? " dynamic" : " static"));
                    for(int k = 0; k < NKINDS; ++k) for(long n = 0; n < full.seen[k]; ++n) { judge(s, attempt(o, a, t, kind(k), n, false), full, kind(k), n, false); if(n % 4 == 0) clean(s, attempt(o, a, t, ALLOC, -1, false), full); }
                    clean(s, attempt(o, a, t, ALLOC, -1, false), full);
                }
            });
        }
    });
    // making a store: every failure, the failing step repeated
    vk::section("filling a store", [](vk::S& s)
    {
        const std::size_t N = 12;
        const str text = W<C>(U"an owned text that is not short"); std::vector<str> names; for(std::size_t i = 0; i < N; ++i) names.push_back(W<C>(U"name_that_is_longer_than_any_small_buffer_") + C('a' + i));
        for(unsigned mask = 0; mask < 1u << 6; ++mask) for(int rep = 0; rep < 2; ++rep)
        {
            // bit i: argument i (and i + 6) is named
            long points = 0;
            for(long at = -1; at < points || at < 0; ++at)
            {
                auto body = [&](long fail, std::string& got, long& seen)
                {
                    const long before = live;
                    {
                        papilio::basic_dynamic_format_args<ctx_t<C>, C> d; std::size_t pos = 0; str t;
                        for(int i = 0; i < NKINDS; ++i) F.left[i] = -1, F.seen[i] = 0;
                        F.left[ALLOC] = fail;
                        seen = 0;
                        for(std::size_t i = 0; i < N; ++i)
                        {
                            const bool named = mask >> (i % 6) & 1;
                            auto step = [&] { if(rep) { if(named) d.emplace(papilio::arg(sv(names[i]), a.u)); else d.emplace(a.u); } else if(named) d.emplace(papilio::arg(sv(names[i]), text)); else d.emplace(text); };
                            F.armed = true;
                            try { step(); F.armed = false; } catch(const oom&) { F.armed = false; s.expect(fail >= 0, "failed by itself"); F.left[ALLOC] = -1; step(); }
                        }
                        seen = F.seen[ALLOC];
                        for(std::size_t i = 0; i < N; ++i) if(mask >> (i % 6) & 1) t += C('{') + names[i] + C('}'); else { t += W<C>(U"{}"); ++pos; }
                        t += W<C>(U"|{") ; for(char c : std::to_string(pos)) t += C(c); t += C('}');
                        try { got = bytes<C>(papilio::vformat(t, d)); } catch(const papilio::format_error&) { t.resize(t.find(C('|'))); got = bytes<C>(papilio::vformat(t, d)); }
                    }
                    (void)before;
                };
                if(at < 0) { std::string g; try { body(-1, g, points); } catch(vk::case_failed&) {} if(!s.next()) continue; s.desc("mask " + std::to_string(mask) + " rep " + std::to_string(rep)); body(-1, g, points); continue; }
                if(!s.next()) continue;
                s.desc("mask " + std::to_string(mask) + " rep " + std::to_string(rep) + " allocation " + std::to_string(at + 1)); s.trans();
                std::string g, w; long n; body(-1, w, n); body(at, g, n);
                s.eq("after repeating the failing step", g, w);
            }
        }
    });
#if PRINTING
    // ---- files and streams
    struct file { sink* s; long left; bool partial; int err; };
    auto open = [](file& f, int mode) -> FILE*
    {
        cookie_io_functions_t io{}; io.write = [](void* c, const char* b, size_t n) -> ssize_t { auto& f = *static_cast<file*>(c); size_t k = 0; if(f.left >= 0 && size_t(f.left) < n && !f.partial) { errno = ENOSPC; ++f.err; return 0; } while(k < n && f.left != 0) { f.s->add(b[k++]); if(f.left > 0) --f.left; } if(k < n) { errno = ENOSPC; ++f.err; } return ssize_t(k); };
        FILE* p = fopencookie(&f, "w", io);
        setvbuf(p, nullptr, mode == 0 ? _IONBF : mode == 1 ? _IOLBF : _IOFBF, mode == 0 ? 0 : mode == 3 ? 8 : 1024);
        return p;
    };
    vk::section("files", [open](vk::S& s)
    {
        const papilio::text_style style = papilio::fg(papilio::color::red);
        for(auto& tm : corpus()) for(int way = 0; way < 5; ++way) for(int mode = 0; mode < 4; ++mode)
        {
            const str t = W<C>(tm);
            auto go = [&](long limit, bool partial, sink& k, int& outcome)
            {
                file f{&k, limit, partial, 0};
                FILE* p = open(f, mode); FILE* old = stdout; if(way > 1) stdout = p;
                k.n = 0;
                try
                {
                    a.with([&](auto&&... x)
                    {
                        const sv fs(t);
                        switch(way) { case 0: papilio::print(p, fs, x...); break; case 1: papilio::println(p, fs, x...); break; case 2: papilio::print(fs, x...); break; case 3: papilio::println(style, fs, x...); break; case 4: papilio::println(); break; }
                    });
                    outcome = 0;
                }
                catch(const std::system_error&) { outcome = 1; }
                catch(const std::exception&) { outcome = 2; }
                stdout = old;
                const std::size_t n = k.n; // what closing adds does not count
                fclose(p); k.n = n;
            };
            sink full; int oc; go(-1, false, full, oc);
            const std::size_t len = full.n;
            for(int partial = 0; partial < 2; ++partial) for(std::size_t at = 0; at <= len; ++at)
            {
                if(at > 40 && at + 3 < len && at % 97) continue;
                if(!s.next()) continue;
                s.desc(bytes<C>(t) + " way " + std::to_string(way) + " buffering " + std::to_string(mode) + " fails after " + std::to_string(at) + (partial ? ", short writes" : "")); s.trans();
                sink k; int o2; go(long(at), partial, k, o2);
                if(oc != 0) { s.expect(o2 == oc && k.n == 0, "written before the failure"); continue; }
                s.expect(prefix(k.text(), full.text()), "not the beginning of the full output");
                s.expect(o2 == (at < len), at < len ? "the failure to write was not reported" : "failed without a reason");
                if(at == len) s.eq("output", k.text(), full.text());
                s.state(vk::hash_str(bytes<C>(k.text()) + char('0' + mode)));
            }
        }
    });
    struct buf : std::streambuf
    {
        sink* s; long left; bool throws;
        int_type overflow(int_type c) override { if(left == 0) { if(throws) throw boom{WRITE, 77}; return traits_type::eof(); } if(left > 0) --left; s->add(char(c)); return traits_type::not_eof(c); }
    };
    vk::section("streams", [](vk::S& s)
    {
        for(auto& tm : corpus()) for(int way = 0; way < 3; ++way) for(int mask = 0; mask < 2; ++mask)
        {
            const str t = W<C>(tm);
            auto go = [&](long limit, bool throws, sink& k, bool& bad)
            {
                buf b; b.s = &k; b.left = limit; b.throws = throws; std::ostream os(&b); if(mask) os.exceptions(std::ios::badbit);
                k.n = 0; int oc = 0;
                try { a.with([&](auto&&... x) { const sv fs(t); if(way == 0) papilio::print(os, fs, x...); else if(way == 1) papilio::println(os, fs, x...); else papilio::println(os); }); }
                catch(const boom& e) { oc = e.n == 77 ? 1 : 9; } catch(const std::ios_base::failure&) { oc = 2; } catch(const std::exception&) { oc = 3; } catch(...) { oc = 9; }
                bad = os.bad();
                return oc;
            };
            sink full; bool bad; const int oc = go(-1, false, full, bad);
            for(int throws = 0; throws < 2; ++throws) for(std::size_t at = 0; at < full.n; ++at)
            {
                if(at > 60 && at + 3 < full.n && at % 31) continue;
                if(!s.next()) continue;
                s.desc(bytes<C>(t) + " way " + std::to_string(way) + (mask ? " reporting" : "") + (throws ? " throws" : " fails") + " after " + std::to_string(at)); s.trans();
                sink k; bool b2; const int o2 = go(long(at), throws, k, b2);
                s.expect(prefix(k.text(), full.text()) && k.n == at, "written: ", k.n);
                s.expect(b2, "the stream is not bad");
                s.expect(o2 == (!mask ? oc : throws ? 1 : 2), "outcome ", o2);
            }
        }
    });
#endif
    return vk::main(argc, argv, "C19");
}
