// C18: text styles wrap the output in matched escapes and nothing else
#include "world.hpp"
#include <papilio/color.hpp>
#include <papilio/print.hpp>
#include <papilio/formatter/chrono.hpp>
#include <papilio/formatter/filesystem.hpp>
#include <deque>
#include <list>
#include <termios.h>
using namespace papilio;
using st_t = papilio::text_style;
static const color colors[] = {color::none, color::black, color::red, color::green, color::yellow, color::blue, color::purple, color::cyan, color::white};

// ---- the terminal: what a text looks like, as a list of (attributes, characters)
struct look { int fg = 0, bg = 0; unsigned emph = 0; bool operator==(const look&) const = default; };
struct screen { std::string error; std::vector<std::pair<look, std::string>> runs; look end; int resets = 0, sets = 0; };
static screen play(const std::string& s)
{
    screen r; look cur;
    for(std::size_t i = 0; i < s.size();)
    {
        if(s[i] != '\033')
        {
            if(r.runs.empty() || !(r.runs.back().first == cur)) r.runs.push_back({cur, ""});
            r.runs.back().second += s[i++];
            continue;
        }
        if(i + 1 >= s.size() || s[i + 1] != '[') { r.error = "not a control sequence"; return r; }
        std::size_t j = i + 2; int v = 0; bool have = false;
        for(;; ++j)
        {
            if(j >= s.size()) { r.error = "unfinished control sequence"; return r; }
            if(s[j] >= '0' && s[j] <= '9') { v = v * 10 + (s[j] - '0'); have = true; continue; }
            if(s[j] != ';' && s[j] != 'm') { r.error = "not a selection of attributes"; return r; }
            if(!have) v = 0;
            if(v == 0) { cur = {}; ++r.resets; }
            else if(v <= 4) { cur.emph |= 1u << (v - 1); ++r.sets; }
            else if(v >= 30 && v <= 37) { cur.fg = v; ++r.sets; }
            else if(v >= 40 && v <= 47) { cur.bg = v; ++r.sets; }
            else { r.error = "attribute " + std::to_string(v); return r; }
            v = 0; have = false;
            if(s[j] == 'm') break;
        }
        i = j + 1;
    }
    r.end = cur;
    return r;
}
static look want(color f, color b, unsigned e) { return {int(f), b == color::none ? 0 : int(b) + 10, e}; }
static std::string name(color f, color b, unsigned e) { return "fg " + std::to_string(int(f)) + " bg " + std::to_string(int(b)) + " emphasis " + std::to_string(e); }
static st_t make(color f, color b, unsigned e) { st_t r; if(f != color::none) r |= fg(f); if(b != color::none) r |= bg(b); if(e) r |= style(e); return r; }
// the whole of out is body under l, nothing else
static void wrapped(vk::S& s, const std::string& what, const std::string& out, const look& l, const std::string& body)
{
    if(l == look{}) { s.eq(what, out, body); return; }
    auto r = play(out);
    s.expect(r.error.empty(), what, ": ", r.error, " in [", vk::hex_escape(out), "]");
    s.expect(r.end == look{}, what, ": attributes left behind: [", vk::hex_escape(out), "]");
    s.expect(r.resets == 1 && out.size() >= 4 && out.find("\033[0m") == out.size() - 4, what, ": not reset exactly once, at the end: [", vk::hex_escape(out), "]");
    std::string text; for(auto& x : r.runs) { s.expect(x.first == l, what, ": wrong attributes on [", vk::hex_escape(x.second), "] in [", vk::hex_escape(out), "]"); text += x.second; }
    s.eq(what, text, body);
    // nothing is selected twice
    s.expect(r.sets == (l.fg != 0) + (l.bg != 0) + __builtin_popcount(l.emph), what, ": more selected than asked for: [", vk::hex_escape(out), "]");
    if(body.empty()) { std::string head = out.substr(0, out.size() - 4); auto h = play(head + "x"); s.expect(h.runs.size() == 1 && h.runs[0].first == l, what, ": attributes of an empty text"); }
}
static void state(vk::S& s, const st_t& t, color f, color b, unsigned e)
{
    s.expect(t.has_foreground() == (f != color::none) && t.has_background() == (b != color::none) && t.has_style() == (e != 0), "requested: ", name(f, b, e));
    for(unsigned x = 0; x < 16; ++x) s.expect(t.has_style(style(x)) == ((e & x) != 0), "emphasis ", x);
    std::string a; t.set(std::back_inserter(a)); const std::size_t n = a.size(); t.reset(std::back_inserter(a));
    std::string body; body = a.substr(0, n) + "x" + a.substr(n);
    wrapped(s, "set and reset", body, want(f, b, e), "x");
    if(want(f, b, e) == look{}) s.expect(a.empty(), "something written for nothing");
    // through other iterators
    std::list<char> l; t.reset(t.set(std::back_inserter(l))); s.eq("list", std::string(l.begin(), l.end()), a);
    std::vector<char> raw(a.size() + 2, '#'); char* p = t.set(raw.data() + 1); s.expect(p == raw.data() + 1 + n, "end of set"); p = t.reset(p); s.expect(p == raw.data() + 1 + a.size() && raw.front() == '#' && raw.back() == '#', "end of reset");
    s.eq("raw", std::string(raw.begin() + 1, raw.end() - 1), a);
    std::ostringstream os; t.reset(t.set(std::ostream_iterator<char>(os))); s.eq("stream", os.str(), a);
    s.trans(4);
}

// as state(), against the style made directly (which state() has judged)
static void alike(vk::S& s, const st_t& t, color f, color b, unsigned e)
{
    static std::map<std::tuple<color, color, unsigned>, std::string> known;
    auto& k = known[{f, b, e}];
    if(k.empty()) { make(f, b, e).set(std::back_inserter(k)); k += '!'; }
    std::string a; t.set(std::back_inserter(a)); a += '!';
    s.eq("set", a, k); s.expect(t.has_foreground() == (f != color::none) && t.has_background() == (b != color::none) && t.has_style() == (e != 0), "requested: ", name(f, b, e));
    s.trans();
}

enum class fruit { apple, kiwi_gold };
struct light { int v; };
struct custom { int v; };
struct found { int v; };
struct streamed { int v; };
static std::ostream& operator<<(std::ostream& o, const streamed& x) { return o << "s" << x.v; }
template <typename FC> auto format(const found& a, FC& ctx) { papilio::format_context_traits<FC>::append(ctx, char('0' + a.v)); return ctx.out(); }
namespace papilio
{
template <> class formatter<custom, char>
{
    bool m_b = false;
public:
    template <typename PC> auto parse(PC& c) -> typename PC::iterator { auto it = c.begin(); if(it != c.end() && *it == U'!') { m_b = true; ++it; } return it; }
    template <typename FC> auto format(const custom& u, FC& ctx) const { using t = format_context_traits<FC>; t::append(ctx, m_b ? 'U' : 'u'); t::append(ctx, char('0' + u.v)); return ctx.out(); }
};
template <> class formatter<light, char>
{
public:
    template <typename PC, typename FC> auto format(const light& l, PC&, FC& ctx) const -> typename FC::iterator { using t = format_context_traits<FC>; t::append(ctx, 'l'); t::append(ctx, char('0' + l.v)); return ctx.out(); }
};
} // namespace papilio

static std::vector<std::tuple<color, color, unsigned>> some_styles()
{
    std::vector<std::tuple<color, color, unsigned>> r{{color::none, color::none, 0}, {color::red, color::none, 0}, {color::none, color::white, 0}, {color::none, color::none, 1}, {color::none, color::none, 10}, {color::black, color::cyan, 15}};
    if(vk::thorough()) { r.clear(); for(color f : {color::none, color::black, color::white}) for(color b : {color::none, color::black, color::white}) for(unsigned e = 0; e < 16; ++e) r.push_back({f, b, e}); }
    return r;
}
template <typename F> static std::string captured(F f)
{
    char* b = nullptr; std::size_t l = 0; FILE* m = open_memstream(&b, &l); FILE* old = stdout; stdout = m;
    try { f(); } catch(...) { stdout = old; fclose(m); free(b); throw; }
    stdout = old; fclose(m); std::string r(b, l); free(b); return r;
}
template <typename T> static const T& kept(T v) { return *new T(v); }
// a value under every specification: as without a style, wrapped
template <typename T> static void value(const char* nm, const T& v, std::vector<std::string> specs)
{
    vk::section(nm, [&v, specs = std::move(specs)](vk::S& s)
    {
        for(auto& sp : specs) for(auto& [f, b, e] : some_styles())
        {
            if(!s.next()) continue;
            const std::string spec = sp.empty() ? "" : ":" + sp;
            s.desc(spec + " " + name(f, b, e)); s.trans();
            const look l = want(f, b, e); const st_t t = make(f, b, e);
            int five = 5;
            auto attempt = [&](auto fn) { try { return fn(); } catch(const format_error& x) { return std::string("\1error"); } };
            const std::string plain = attempt([&] { return PAPILIO_NS vformat("{" + spec + "}", PAPILIO_NS make_format_args(v, five)); });
            auto one = [&](const char* what, const std::string& tm, auto... more)
            {
                auto got = attempt([&] { return PAPILIO_NS vformat(tm, PAPILIO_NS make_format_args(styled(t, v), five, more...)); });
                if(plain == "\1error") { s.eq(what, got, plain); return std::string(); }
                s.expect(got != "\1error", what, " refused, without a style it is [", vk::hex_escape(plain), "]");
                s.state(vk::hash_str(got + s.name));
                return got;
            };
            auto got = one("format", "{" + spec + "}");
            if(plain == "\1error") continue;
            wrapped(s, "format", got, l, plain);
            s.expect(one("between texts", "<{0" + spec + "}>{0" + spec + "}{1}") == "<" + got + ">" + got + "5", "between texts");
            s.expect(one("in a branch", "{$ {1} == 5 ? {0" + spec + "} : 'n'}|") == got + "|", "in a branch");
            s.expect(one("next to a skipped branch", "{$ {1} != 5 ? {0" + spec + "} : 'n'}|") == "n|", "in a skipped branch");
            if(spec.find('{') == std::string::npos)
            {
                const auto sd = styled(t, v);
                std::vector<char> o; using it_t = std::back_insert_iterator<std::vector<char>>;
                PAPILIO_NS vformat_to(it_t(o), std::string_view("{" + spec + "}"), PAPILIO_NS make_format_args<basic_format_context<it_t>>(sd)); s.eq("vector", std::string(o.begin(), o.end()), got);
                s.expect(PAPILIO_NS formatted_size("{}", styled(t, v)) == PAPILIO_NS format("{}", styled(t, v)).size(), "size");
                dynamic_format_args dyn; dyn.emplace(PAPILIO_NS arg("x", sd)); dyn.emplace(sd);
                s.eq("dynamic store", PAPILIO_NS vformat("{" + spec + "}{x" + spec + "}", dyn), got + got);
            }
            // print and println with a style
            s.eq("print", captured([&] { PAPILIO_NS print(t, "a{0}b", v); }).substr(0), captured([&] { std::string a; t.set(std::back_inserter(a)); a += PAPILIO_NS format("a{0}b", v); t.reset(std::back_inserter(a)); fwrite(a.data(), 1, a.size(), stdout); }));
            wrapped(s, "print", captured([&] { PAPILIO_NS print(t, "a{0}b", v); }), l, PAPILIO_NS format("a{0}b", v));
            auto ln = captured([&] { PAPILIO_NS println(t, "{0}", v); });
            s.expect(!ln.empty() && ln.back() == '\n', "println without a line end"); ln.pop_back();
            wrapped(s, "println", ln, l, PAPILIO_NS format("{0}", v));
        }
    });
}

int main(int argc, char** argv)
{
    // every style there is, and every combination with another that does not conflict
    vk::section("combinations", [](vk::S& s)
    {
        for(color f : colors) for(color b : colors) for(unsigned e = 0; e < 16; ++e)
        {
            if(!s.next()) continue;
            s.desc(name(f, b, e)); s.state(vk::hash_str(name(f, b, e)));
            const st_t base = make(f, b, e);
            state(s, base, f, b, e);
            { st_t c(base); state(s, c, f, b, e); c |= style::none; state(s, c, f, b, e); }
            for(unsigned x = 0; x < 16; ++x)
            {
                st_t c(base); st_t& r = (c |= style(x)); s.expect(&r == &c, "result"); alike(s, c, f, b, e | x);
                alike(s, base | style(x), f, b, e | x); alike(s, style(x) | base, f, b, e | x); alike(s, base | st_t(style(x)), f, b, e | x); alike(s, base, f, b, e);
                s.trans(3);
            }
            for(color g : colors) for(color h : colors) for(unsigned x : {0u, 1u, 6u, 8u})
            {
                if((f != color::none && g != color::none) || (b != color::none && h != color::none)) continue;
                const color F = f == color::none ? g : f, H = b == color::none ? h : b;
                const st_t o = make(g, h, x);
                { alike(s, base | o, F, H, e | x); alike(s, o | base, F, H, e | x); }
                st_t c(base); st_t& r = (c |= o); s.expect(&r == &c, "result"); alike(s, c, F, H, e | x); alike(s, o, g, h, x);
                s.trans(3);
            }
            if(f == color::none) for(color g : colors) { alike(s, base | fg(g), g, b, e); alike(s, fg(g) | base, g, b, e); }
            if(b == color::none) for(color g : colors) { alike(s, base | bg(g), f, g, e); alike(s, bg(g) | base, f, g, e); }
        }
    });
    vk::section("every order of building", [](vk::S& s)
    {
        // up to 6 parts (4 emphases, a foreground, a background), every sequence without repetition of colours
        std::vector<int> seq;
        std::function<void()> go = [&]
        {
            for(int assoc = 0; assoc < 3; ++assoc)
            {
                if(!s.next()) continue;
                std::string d; for(int i : seq) d += char('0' + i); s.desc("parts " + d + " way " + std::to_string(assoc));
                auto part = [](int i) -> st_t { return i < 4 ? st_t(style(1u << i)) : i == 4 ? fg(color::purple) : bg(color::green); };
                st_t r; unsigned e = 0; color f = color::none, b = color::none;
                for(int i : seq) { if(i < 4) e |= 1u << i; else if(i == 4) f = color::purple; else b = color::green; }
                if(assoc == 0) for(int i : seq) { if(i < 4) r |= style(1u << i); else r |= part(i); }
                else if(assoc == 1) for(int i : seq) r |= (r.has_style() ? st_t() : st_t(style::none)) | part(i);
                else { std::vector<st_t> v; for(int i : seq) v.push_back(part(i)); while(v.size() > 1) { st_t y = v.back(); v.pop_back(); st_t z = v.back() | y; v.pop_back(); v.push_back(z); } if(!v.empty()) r |= v[0]; }
                state(s, r, f, b, e); s.trans(seq.size()); s.state(vk::hash_str(d));
            }
            if(seq.size() == 6) return;
            for(int i = 0; i < 6; ++i) { bool used = false; for(int j : seq) used |= j == i; if(used) { if(i >= 4 || seq.size() > 3) continue; } seq.push_back(i); go(); seq.pop_back(); }
        };
        go();
    });
    static const std::vector<std::string> strs{"", "s", ">6", "*^7", "_<2.1", "?", "d", "08", "{1}"};
    value<int>("int", kept<int>(-42), {"", "d", "x", "+", ">8", "#010x", "*^9b", "c", "s", ".1", ">{1}", "?"});
    value<unsigned long long>("unsigned", kept<unsigned long long>(~0ull), {"", "x", ">24", "z"});
    value<bool>("bool", kept<bool>(true), {"", "d", "s", "^7", "x", "L"});
    value<char>("char", kept<char>('q'), {"", "d", "c", "?", "_^5", "s"});
    value<utf::codepoint>("code point", kept<utf::codepoint>(utf::codepoint(U'\u6f22')), {"", "d", "c", "?", "_^5", "x"});
    value<double>("double", kept<double>(-2.5), {"", ".3f", "e", "+10", "<12", ".{1}f", "s"});
    value<float>("float", kept<float>(0.1f), {"", ".3f", "a", "g"});
    static const std::string str1 = "a string", str2;
    value<std::string>("string", str1, strs);
    value<std::string>("empty string", str2, strs);
    static const std::string_view view1 = "a \xe6\xbc\xa2 view";
    value<std::string_view>("view", view1, strs);
    static const char* const ptr1 = "a pointer";
    value<const char*>("pointer to characters", ptr1, strs);
    static const char lit1[6] = "a lit";
    value<char[6]>("literal", lit1, strs);
    static const utf::string_container sc1("a container"); value<utf::string_container>("string container", sc1, strs);
    static const utf::string_ref sr1("a reference"); value<utf::string_ref>("string reference", sr1, strs);
    static const void* const p1 = nullptr; value<const void*>("pointer", p1, {"", "p", ">8", "P", "x"});
    static int anint; static int* const p2 = &anint; value<int*>("pointer to int", p2, {"", "p", ">24"});
    static const std::nullptr_t np = nullptr; value<std::nullptr_t>("null pointer", np, {"", ">8"});
    value<fruit>("enumeration", kept<fruit>(fruit::kiwi_gold), {"", "d", "s", ">12", "z"});
    static const std::vector<int> v1{1, 2, 3}; value<std::vector<int>>("vector", v1, {"", "n", ":>3", "n:02", "s", "z"});
    static const std::vector<std::string> v2{"x", "yz"}; value<std::vector<std::string>>("vector of strings", v2, {"", "n", ":>3", "z"});
    static const std::vector<std::optional<int>> v3{1, std::nullopt}; value<std::vector<std::optional<int>>>("vector of optional", v3, {"", "n", ":>3"});
    static const std::map<int, std::string> m1{{1, "a"}, {2, "b"}}; value<std::map<int, std::string>>("map", m1, {"", "n", "m", "z"});
    static const std::tuple<int, std::string> t1{1, "t"}; value<std::tuple<int, std::string>>("tuple", t1, {"", "n", "m", "z"});
    static const std::pair<int, int> t2{1, 2}; value<std::pair<int, int>>("pair", t2, {"", "n", "m"});
    static const std::optional<int> o1 = 5, o2; value<std::optional<int>>("optional", o1, {"", ">5"}); value<std::optional<int>>("empty optional", o2, {""});
    static const std::variant<int, std::string> va("text"); value<std::variant<int, std::string>>("variant", va, {"", "z"});
    static const auto j1 = join(v1, "-"); value<std::remove_const_t<decltype(j1)>>("join", j1, {"", "02", ">4", "z"});
    static const auto j2 = join(v3); value<std::remove_const_t<decltype(j2)>>("join of optional", j2, {"", ">4"});
    static const std::filesystem::path pa("a/b c"); value<std::filesystem::path>("path", pa, {"", "g", "?", ">9"});
    static const std::tm tm1 = [] { std::tm t{}; t.tm_year = 100; t.tm_mon = 1; t.tm_mday = 29; t.tm_hour = 13; return t; }(); value<std::tm>("time", tm1, {"", "%F", "%H:%M"});
    static const light li{3}; value<light>("without specification", li, {"", "x"});
    static const custom cu{4}; value<custom>("with its own specification", cu, {"", "!", "x"});
    static const found fo{5}; value<found>("found by its function", fo, {""});
    static const streamed se{6}; value<streamed>("streamed", se, {"", ">5"});
    vk::section("several styles", [](vk::S& s)
    {
        auto all = some_styles();
        for(auto& a : all) for(auto& b : all) for(auto& c : all)
        {
            if(!s.next()) continue;
            auto [f1, b1, e1] = a; auto [f2, b2, e2] = b; auto [f3, b3, e3] = c;
            s.desc(name(f1, b1, e1) + " / " + name(f2, b2, e2) + " / " + name(f3, b3, e3)); s.trans();
            st_t x = make(f1, b1, e1), y = make(f2, b2, e2), z = make(f3, b3, e3);
            std::string X = PAPILIO_NS format("{}", styled(x, 1)), Y = PAPILIO_NS format("{:>3}", styled(y, "s")), Z = PAPILIO_NS format("{}", styled(z, v1));
            s.eq("together", PAPILIO_NS format("{}{:>3},{}{0}", styled(x, 1), styled(y, "s"), styled(z, v1)), X + Y + "," + Z + X);
            wrapped(s, "first", X, want(f1, b1, e1), "1"); wrapped(s, "second", Y, want(f2, b2, e2), "  s"); wrapped(s, "third", Z, want(f3, b3, e3), "[1, 2, 3]");
            const int one = 1, more = 23; std::vector vs{styled(x, one), styled(x, more)};
            s.eq("range of styled", PAPILIO_NS format("{}", vs), "[" + X + ", " + PAPILIO_NS format("{}", styled(x, 23)) + "]");
            s.eq("range of styled, specification", PAPILIO_NS format("{::>3}", vs), "[" + PAPILIO_NS format("{:>3}", styled(x, 1)) + ", " + PAPILIO_NS format("{:>3}", styled(x, 23)) + "]");
            s.eq("tuple of styled", PAPILIO_NS format("{}", std::make_tuple(styled(x, one), styled(z, v1))), "(" + X + ", " + Z + ")");
            if(want(f1, b1, e1) == look{} || want(f2, b2, e2) == look{}) s.eq("nested", PAPILIO_NS format("{}", styled(x, styled(y, 7))), want(f1, b1, e1) == look{} ? PAPILIO_NS format("{}", styled(y, 7)) : PAPILIO_NS format("{}", styled(x, 7)));
        }
    });
    vk::section("terminal", [](vk::S& s)
    {
        for(auto& [f, b, e] : some_styles()) for(int nl = 0; nl < 2; ++nl)
        {
            if(!s.next()) continue;
            s.desc(name(f, b, e) + (nl ? " println" : " print")); s.trans();
            int m = posix_openpt(O_RDWR | O_NOCTTY); char nm[64];
            if(m < 0 || grantpt(m) || unlockpt(m) || ptsname_r(m, nm, sizeof nm)) { if(m >= 0) close(m); continue; } // no pseudo terminals here
            int sl = open(nm, O_RDWR | O_NOCTTY);
            if(sl < 0) { close(m); continue; }
            termios t{}; tcgetattr(sl, &t); cfmakeraw(&t); tcsetattr(sl, TCSANOW, &t);
            FILE* o = fdopen(sl, "w"); FILE* old = stdout; stdout = o;
            st_t x = make(f, b, e);
            if(nl) PAPILIO_NS println(x, "{}|{:>4}", "\xe6\xbc\xa2", 7); else PAPILIO_NS print(x, "{}|{:>4}", "\xe6\xbc\xa2", 7);
            stdout = old;
            char buf[256]; auto n = read(m, buf, sizeof buf);
            fclose(o); close(m);
            std::string got(buf, n < 0 ? 0 : n);
            if(nl) { s.expect(!got.empty() && got.back() == '\n', "no line end"); got.pop_back(); }
            wrapped(s, "terminal", got, want(f, b, e), "\xe6\xbc\xa2|   7");
        }
    });
    return vk::main(argc, argv, "C18");
}
