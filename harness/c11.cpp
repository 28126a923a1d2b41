// C11: histories of UTF string containers and references
#include <papilio/utf/utf.hpp>
#include <deque>
#include <list>
#include <memory>
#include <sstream>
#include "vk.hpp"
#include "ref.hpp"
namespace utf = papilio::utf;
using papilio::independent;
using papilio::reverse_index;

template <typename C> struct hist
{
    using str = std::basic_string<C>;
    using sv = std::basic_string_view<C>;
    using SC = utf::basic_string_container<C>;
    using cp = utf::codepoint;
    static str E(char32_t c) { return ref::enc<C>(ref::u32(1, c)); }
    static std::string show(sv s)
    {
        std::string r; char b[16];
        for(C c : s) { auto v = std::uint32_t(c) & (sizeof(C) == 1 ? 0xffu : sizeof(C) == 2 ? 0xffffu : ~0u); if(v > 0x20 && v < 0x7f) r += char(v); else { std::snprintf(b, sizeof b, "<%x>", v); r += b; } }
        return r;
    }
    static constexpr C lead = sizeof(C) == 1 ? C(0xC3) : sizeof(C) == 2 ? C(0xD83D) : C('b'), trail = sizeof(C) == 1 ? C(0xA9) : sizeof(C) == 2 ? C(0xDE00) : C('c');
    static constexpr char32_t two = U'\u00e9', four = U'\U0001F600';
    static const str& ext(int i)
    {
        static const str v[] = {str(), C('a') + E(two), str(1, trail) + C('a'), str(13, C('a')) + trail, E(four)};
        return v[i];
    }
    // the abstract object
    struct mo { str text; bool own = true; int src = -1; bool valid = true; };
    struct model { mo m[2]; };
    struct world { std::unique_ptr<SC> p[2]; str e[5]; std::string err; };
    static bool fits(const str& t) { static const std::size_t lim = vk::thorough() ? 4 : 3; return t.size() <= lim || t == ext(4) || t.size() == 12 || t == ext(3) || (t.size() <= (vk::thorough() ? 17 : 16) && t.substr(0, 13) == ext(3).substr(0, 13)); }

    struct op
    {
        std::string name;
        bool reads_self, reads_other;
        std::function<void(world&, int)> real;   // (world, target)
        std::function<bool(model&, int)> mod;    // false: not applicable
    };
    static void touched(model& w, int t) { mo& o = w.m[1 - t]; if(o.valid && !o.own && o.src == t) o.valid = false; }
    static void own(model& w, int t, const str& x) { touched(w, t); w.m[t] = {x, true, -1, true}; }
    static void view(model& w, int t, const str& x, int src = -1) { touched(w, t); w.m[t] = {x, false, src, true}; }
    // a view of what the other object shows: of its own buffer, or of what that one borrows
    static void borrow_other(model& w, int t, const str& x)
    {
        mo& o = w.m[1 - t];
        if(o.own) view(w, t, x, 1 - t);
        else if(o.src == t && w.m[t].own) own(w, t, x); // part of what the target owns: kept
        else view(w, t, x, o.src);
    }
    // a view of what the object itself shows
    static void borrow_self(model& w, int t, const str& x) { if(w.m[t].own) own(w, t, x); else { int s = w.m[t].src; view(w, t, x, s); } }
    // the same for a new object that replaces (destroys) the old one
    static void born_from_other(model& w, int t, const str& x)
    {
        mo& o = w.m[1 - t];
        int src = o.own ? 1 - t : o.src;
        bool dead = !o.own && o.src == t; // borrowed from the object that is replaced
        touched(w, t);
        w.m[t] = {x, false, src, !dead};
    }
    static str tail(const str& x) { auto u = ref::segment<C>(sv(x)); return u.size() < 2 ? str() : x.substr(u[1].off); }
    static str head(const str& x) { auto u = ref::segment<C>(sv(x)); return u.empty() ? str() : x.substr(0, u[0].len); }
    static str put(const str& x, std::size_t i, const str& with) { auto u = ref::segment<C>(sv(x)); return str(x).replace(u[i].off, u[i].len, with); }

    static std::vector<op> make_ops()
    {
        std::vector<op> v;
        auto add = [&](std::string n, bool rs, bool ro, auto real, auto mod) { v.push_back({std::move(n), rs, ro, real, mod}); };
        auto num = [](int i) { return "#" + std::to_string(i); };
        // --- construction (replaces the target)
        add("{}", 0, 0, [](world& w, int t) { w.p[t] = std::make_unique<SC>(); }, [](model& w, int t) { own(w, t, {}); return true; });
        add("{other}", 0, 1, [](world& w, int t) { w.p[t] = std::make_unique<SC>(std::as_const(*w.p[1 - t])); }, [](model& w, int t) { born_from_other(w, t, w.m[1 - t].text); return true; });
        add("{move(other)}", 0, 1, [](world& w, int t) { w.p[t] = std::make_unique<SC>(std::move(*w.p[1 - t])); w.p[1 - t]->clear(); }, [](model& w, int t)
        {
            mo o = w.m[1 - t];
            if(o.own) { own(w, t, o.text); w.m[1 - t] = {{}, true, -1, true}; } else { born_from_other(w, t, o.text); w.m[1 - t] = {{}, false, -1, true}; }
            return true;
        });
        add("{independent, other}", 0, 1, [](world& w, int t) { w.p[t] = std::make_unique<SC>(independent, *w.p[1 - t]); }, [](model& w, int t) { own(w, t, w.m[1 - t].text); return true; });
        for(int i : {0, 2, 3, 4}) add("{string_view " + num(i) + "}", 0, 0, [i](world& w, int t) { w.p[t] = std::make_unique<SC>(sv(w.e[i])); }, [i](model& w, int t) { view(w, t, ext(i)); return true; });
        for(int i : {1, 3})
        {
            add("{string&& " + num(i) + "}", 0, 0, [i](world& w, int t) { w.p[t] = std::make_unique<SC>(str(w.e[i])); }, [i](model& w, int t) { own(w, t, ext(i)); return true; });
            add("{string const& " + num(i) + "}", 0, 0, [i](world& w, int t) { w.p[t] = std::make_unique<SC>(std::as_const(w.e[i])); }, [i](model& w, int t) { view(w, t, ext(i)); return true; });
            add("{independent, string " + num(i) + "}", 0, 0, [i](world& w, int t) { w.p[t] = std::make_unique<SC>(independent, std::as_const(w.e[i])); }, [i](model& w, int t) { own(w, t, ext(i)); return true; });
        }
        add("{pointer}", 0, 0, [](world& w, int t) { w.p[t] = std::make_unique<SC>(w.e[1].c_str()); }, [](model& w, int t) { view(w, t, ext(1)); return true; });
        add("{pointer, count}", 0, 0, [](world& w, int t) { w.p[t] = std::make_unique<SC>(w.e[3].c_str(), typename SC::size_type(2)); }, [](model& w, int t) { view(w, t, ext(3).substr(0, 2)); return true; });
        add("{independent, pointer}", 0, 0, [](world& w, int t) { w.p[t] = std::make_unique<SC>(independent, w.e[1].c_str()); }, [](model& w, int t) { own(w, t, ext(1)); return true; });
        add("{independent, pointer, count}", 0, 0, [](world& w, int t) { w.p[t] = std::make_unique<SC>(independent, w.e[3].c_str(), typename SC::size_type(2)); }, [](model& w, int t) { own(w, t, ext(3).substr(0, 2)); return true; });
        add("{++other.begin(), other.end()}", 0, 1, [](world& w, int t) { auto& o = std::as_const(*w.p[1 - t]); auto b = o.begin(); if(b != o.end()) ++b; w.p[t] = std::make_unique<SC>(b, o.end()); }, [](model& w, int t) { born_from_other(w, t, tail(w.m[1 - t].text)); return true; });
        add("{2, 'a'}", 0, 0, [](world& w, int t) { w.p[t] = std::make_unique<SC>(2, C('a')); }, [](model& w, int t) { own(w, t, str(2, C('a'))); return true; });
        add("{1, U+1F600}", 0, 0, [](world& w, int t) { w.p[t] = std::make_unique<SC>(1, cp(four)); }, [](model& w, int t) { own(w, t, E(four)); return true; });
        add("{list of units}", 0, 0, [](world& w, int t) { std::list<C> l(w.e[1].begin(), w.e[1].end()); w.p[t] = std::make_unique<SC>(l.begin(), l.end()); }, [](model& w, int t) { own(w, t, ext(1)); return true; });
        // --- assignment
        add("assign(2, 'a')", 0, 0, [](world& w, int t) { w.p[t]->assign(2, C('a')); }, [](model& w, int t) { own(w, t, str(2, C('a'))); return true; });
        add("assign(1, U+E9)", 0, 0, [](world& w, int t) { w.p[t]->assign(1, cp(two)); }, [](model& w, int t) { own(w, t, E(two)); return true; });
        add("assign(0, U+E9)", 0, 0, [](world& w, int t) { w.p[t]->assign(0, cp(two)); }, [](model& w, int t) { own(w, t, {}); return true; });
        add("assign(pointer)", 0, 0, [](world& w, int t) { w.p[t]->assign(w.e[1].c_str()); }, [](model& w, int t) { view(w, t, ext(1)); return true; });
        add("assign(pointer, count)", 0, 0, [](world& w, int t) { w.p[t]->assign(w.e[3].c_str(), 2); }, [](model& w, int t) { view(w, t, ext(3).substr(0, 2)); return true; });
        for(int i : {0, 1, 3})
        {
            add("assign(string_view " + num(i) + ")", 0, 0, [i](world& w, int t) { w.p[t]->assign(sv(w.e[i])); }, [i](model& w, int t) { view(w, t, ext(i)); return true; });
            add("assign(independent, string_view " + num(i) + ")", 0, 0, [i](world& w, int t) { w.p[t]->assign(independent, sv(w.e[i])); }, [i](model& w, int t) { own(w, t, ext(i)); return true; });
            add("assign(string&& " + num(i) + ")", 0, 0, [i](world& w, int t) { w.p[t]->assign(str(w.e[i])); }, [i](model& w, int t) { own(w, t, ext(i)); return true; });
        }
        add("assign(string const&)", 0, 0, [](world& w, int t) { w.p[t]->assign(std::as_const(w.e[1])); }, [](model& w, int t) { view(w, t, ext(1)); return true; });
        add("assign(independent, string const&)", 0, 0, [](world& w, int t) { w.p[t]->assign(independent, std::as_const(w.e[1])); }, [](model& w, int t) { own(w, t, ext(1)); return true; });
        add("= string_view", 0, 0, [](world& w, int t) { *w.p[t] = sv(w.e[3]); }, [](model& w, int t) { view(w, t, ext(3)); return true; });
        add("= independent(string_view)", 0, 0, [](world& w, int t) { *w.p[t] = independent(sv(w.e[1])); }, [](model& w, int t) { own(w, t, ext(1)); return true; });
        add("= independent(string)", 0, 0, [](world& w, int t) { *w.p[t] = independent(w.e[3]); }, [](model& w, int t) { own(w, t, ext(3)); return true; });
        add("= independent(other)", 0, 1, [](world& w, int t) { *w.p[t] = independent(*w.p[1 - t]); }, [](model& w, int t) { own(w, t, str(w.m[1 - t].text)); return true; });
        add("= independent(const other)", 0, 1, [](world& w, int t) { *w.p[t] = independent(std::as_const(*w.p[1 - t])); }, [](model& w, int t) { own(w, t, str(w.m[1 - t].text)); return true; });
        add("= independent(its own reference)", 1, 0, [](world& w, int t) { utf::basic_string_ref<C> r(w.p[t]->to_string_view()); *w.p[t] = independent(r); }, [](model& w, int t) { own(w, t, str(w.m[t].text)); return true; });
        add("= other", 0, 1, [](world& w, int t) { *w.p[t] = std::as_const(*w.p[1 - t]); }, [](model& w, int t) { mo o = w.m[1 - t]; if(o.own) own(w, t, o.text); else borrow_other(w, t, o.text); return true; });
        add("= move(other)", 0, 1, [](world& w, int t) { *w.p[t] = std::move(*w.p[1 - t]); w.p[1 - t]->clear(); }, [](model& w, int t) { mo o = w.m[1 - t]; if(o.own) { own(w, t, o.text); w.m[1 - t] = {{}, true, -1, true}; } else { borrow_other(w, t, o.text); w.m[1 - t] = {{}, false, -1, true}; } return true; });
        add("= itself", 1, 0, [](world& w, int t) { auto& x = *w.p[t]; x = std::as_const(x); }, [](model&, int) { return true; });
        add("= its own substr(1)", 1, 0, [](world& w, int t) { auto& x = *w.p[t]; x = x.template substr<utf::substr_behavior::empty_string>(1); }, [](model& w, int t) { if(w.m[t].text.empty()) return false; borrow_self(w, t, tail(w.m[t].text)); return true; });
        add("= its own substr(0, 1)", 1, 0, [](world& w, int t) { auto& x = *w.p[t]; x = std::as_const(x).substr(0, 1); }, [](model& w, int t) { if(w.m[t].text.empty()) return false; borrow_self(w, t, head(w.m[t].text)); return true; });
        add("= other.substr(1)", 0, 1, [](world& w, int t) { *w.p[t] = w.p[1 - t]->substr(1); }, [](model& w, int t) { auto x = w.m[1 - t].text; if(x.empty()) return false; borrow_other(w, t, tail(x)); return true; });
        add("assign(its own ++begin(), end())", 1, 0, [](world& w, int t) { auto& x = std::as_const(*w.p[t]); auto b = x.begin(); if(b != x.end()) ++b; w.p[t]->assign(b, x.end()); }, [](model& w, int t) { borrow_self(w, t, tail(w.m[t].text)); return !w.m[t].text.empty() || true; });
        add("assign(other.begin(), ++other.begin())", 0, 1, [](world& w, int t) { auto& x = std::as_const(*w.p[1 - t]); auto b = x.begin(); w.p[t]->assign(x.begin(), b == x.end() ? b : ++b); }, [](model& w, int t) { borrow_other(w, t, head(w.m[1 - t].text)); return true; });
        add("assign(string_view of itself)", 1, 0, [](world& w, int t) { w.p[t]->assign(w.p[t]->to_string_view()); }, [](model& w, int t) { borrow_self(w, t, w.m[t].text); return true; });
        add("assign(independent, part of itself)", 1, 0, [](world& w, int t) { sv x = *w.p[t]; w.p[t]->assign(independent, x.substr(x.size() / 2)); }, [](model& w, int t) { str x = w.m[t].text; own(w, t, x.substr(x.size() / 2)); return true; });
        add("assign(independent, other)", 0, 1, [](world& w, int t) { w.p[t]->assign(independent, w.p[1 - t]->to_string_view()); }, [](model& w, int t) { own(w, t, str(w.m[1 - t].text)); return true; });
        add("assign(string_view of other)", 0, 1, [](world& w, int t) { w.p[t]->assign(w.p[1 - t]->to_string_view()); }, [](model& w, int t) { borrow_other(w, t, str(w.m[1 - t].text)); return true; });
        add("assign_range(units)", 0, 0, [](world& w, int t) { std::list<C> l(w.e[2].begin(), w.e[2].end()); w.p[t]->assign_range(l); }, [](model& w, int t) { own(w, t, ext(2)); return true; });
        add("assign_range(code points)", 0, 0, [](world& w, int t) { std::vector<cp> l{cp(two), cp(U'a')}; w.p[t]->assign_range(l); }, [](model& w, int t) { own(w, t, E(two) + C('a')); return true; });
        add("assign_range(itself)", 1, 0, [](world& w, int t) { w.p[t]->assign_range(std::as_const(*w.p[t])); }, [](model& w, int t) { for(auto& u : ref::segment<C>(sv(w.m[t].text))) if(!u.ok) return false; own(w, t, str(w.m[t].text)); return true; });
        add("assign_range(other)", 0, 1, [](world& w, int t) { w.p[t]->assign_range(std::as_const(*w.p[1 - t])); }, [](model& w, int t) { for(auto& u : ref::segment<C>(sv(w.m[1 - t].text))) if(!u.ok) return false; own(w, t, str(w.m[1 - t].text)); return true; });
        add("assign(move(itself).str())", 1, 0, [](world& w, int t) { w.p[t]->assign(std::move(*w.p[t]).str()); }, [](model& w, int t) { own(w, t, str(w.m[t].text)); return true; });
        // --- modification
        auto app = [&](std::string n, str x, auto real) { add(n, 1, 0, real, [x](model& w, int t) { own(w, t, w.m[t].text + x); return true; }); };
        app("push_back('a')", str(1, C('a')), [](world& w, int t) { w.p[t]->push_back(C('a')); });
        app("push_back(lead unit)", str(1, lead), [](world& w, int t) { w.p[t]->push_back(lead); });
        app("push_back(trail unit)", str(1, trail), [](world& w, int t) { w.p[t]->push_back(trail); });
        app("push_back(U+E9)", E(two), [](world& w, int t) { w.p[t]->push_back(cp(two)); });
        app("push_back(U+1F600)", E(four), [](world& w, int t) { w.p[t]->push_back(cp(four)); });
        add("clear()", 0, 0, [](world& w, int t) { w.p[t]->clear(); }, [](model& w, int t) { if(w.m[t].own) own(w, t, {}); else view(w, t, {}); return true; });
        // taking ownership changes nothing anybody can see, and does not disturb who borrows from an owner
        auto keep = [&](std::string n, auto real) { add(n, 1, 0, real, [](model& w, int t) { w.m[t].own = true; w.m[t].src = -1; return true; }); };
        keep("obtain_ownership()", [](world& w, int t) { w.p[t]->obtain_ownership(); });
        keep("c_str()", [](world& w, int t) { auto p = w.p[t]->c_str(); auto x = w.p[t]->to_string_view(); if(p != x.data() || p[x.size()] != C(0)) w.err = "c_str"; });
        keep("str()", [](world& w, int t) { const str& x = std::as_const(*w.p[t]).str(); if(sv(x).data() != w.p[t]->data()) w.err = "str() is not the text of the container"; });
        add("move(itself).str()", 1, 0, [](world& w, int t) { str before(w.p[t]->to_string_view()); str x = std::move(*w.p[t]).str(); if(x != before) w.err = "str() && is not the text"; w.p[t]->clear(); }, [](model& w, int t) { own(w, t, {}); return true; });
        add("swap", 1, 1, [](world& w, int t) { w.p[t]->swap(*w.p[1 - t]); }, [](model& w, int t)
        {
            mo a = w.m[t], b = w.m[1 - t];
            if(!a.own && a.src == 1 - t) a.valid = false;
            if(!b.own && b.src == t) b.valid = false;
            w.m[t] = b; w.m[1 - t] = a; return true;
        });
        add("resize_and_overwrite(size + 1)", 1, 0, [](world& w, int t) { auto n = w.p[t]->size(); w.p[t]->resize_and_overwrite(n + 1, [&](C* p, std::size_t k) { if(k != n + 1) w.err = "resize_and_overwrite size"; p[n] = C('a'); return k; }); }, [](model& w, int t) { own(w, t, w.m[t].text + C('a')); return true; });
        add("resize_and_overwrite(size), keep half", 1, 0, [](world& w, int t) { auto n = w.p[t]->size(); w.p[t]->resize_and_overwrite(n, [](C*, std::size_t k) { return k / 2; }); }, [](model& w, int t) { str x = w.m[t].text; x.resize(x.size() / 2); own(w, t, x); return true; });
        // --- writing code points in place
        auto wr = [&](std::string n, bool ro, auto real, auto mod) { add(n, 1, ro, real, [mod](model& w, int t) { if(w.m[t].text.empty()) return false; auto x = mod(w, t); if(!x) return false; own(w, t, *x); return true; }); };
        using O = std::optional<str>;
        wr("[0] = U+1F600", 0, [](world& w, int t) { (*w.p[t])[0] = cp(four); }, [](model& w, int t) { return O(put(w.m[t].text, 0, E(four))); });
        wr("index(0) = 'a'", 0, [](world& w, int t) { auto&& r = w.p[t]->index(0); r = cp(U'a'); if(char32_t(r) != U'a') w.err = "reference after a write"; }, [](model& w, int t) { return O(put(w.m[t].text, 0, str(1, C('a')))); });
        wr("index(reverse, 0) = U+E9", 0, [](world& w, int t) { w.p[t]->index(reverse_index, 0) = cp(two); }, [](model& w, int t) { auto n = ref::segment<C>(sv(w.m[t].text)).size(); return O(put(w.m[t].text, n - 1, E(two))); });
        wr("*--end() = 'a'", 0, [](world& w, int t) { auto it = w.p[t]->end(); --it; *it = cp(U'a'); if(!(++it == w.p[t]->end())) w.err = "iterator after a write"; }, [](model& w, int t) { auto n = ref::segment<C>(sv(w.m[t].text)).size(); return O(put(w.m[t].text, n - 1, str(1, C('a')))); });
        wr("every *it = 'a'", 0, [](world& w, int t) { for(auto it = w.p[t]->begin(); it != w.p[t]->end(); ++it) *it = cp(U'a'); }, [](model& w, int t) { str x = w.m[t].text; auto n = ref::segment<C>(sv(x)).size(); return O(x.size() > 3 ? O() : O(str(n, C('a')))); });
        wr("[0] = [last]", 0, [](world& w, int t) { auto n = w.p[t]->length(); (*w.p[t])[0] = (*w.p[t])[n - 1]; }, [](model& w, int t) { auto u = ref::segment<C>(sv(w.m[t].text)); if(!u.back().ok) return O(); return O(put(w.m[t].text, 0, w.m[t].text.substr(u.back().off))); });
        wr("[0] = other[0]", 1, [](world& w, int t) { (*w.p[t])[0] = (*w.p[1 - t])[0]; }, [](model& w, int t) { str y = w.m[1 - t].text; auto u = ref::segment<C>(sv(y)); if(u.empty() || !u[0].ok) return O(); return O(put(w.m[t].text, 0, head(y))); });
        if constexpr(sizeof(C) == 2)
            wr("[0] = U+D800 (refused)", 0, [](world& w, int t) { w.p[t]->obtain_ownership(); bool threw = false; try { (*w.p[t])[0] = cp(char32_t(0xD800)); } catch(const std::invalid_argument&) { threw = true; } if(!threw) w.err = "a surrogate was written"; }, [](model& w, int t) { return O(w.m[t].text); });
        if constexpr(std::is_same_v<C, char> || std::is_same_v<C, wchar_t>)
        {
            add("stream >> (word)", 0, 0, [](world& w, int t) { std::basic_istringstream<C> is(C(' ') + w.e[1] + C(' ') + w.e[3]); is >> *w.p[t]; if(!is) w.err = "stream state"; }, [](model& w, int t) { own(w, t, ext(1)); return true; });
            add("stream >> (nothing)", 0, 0, [](world& w, int t) { std::basic_istringstream<C> is; is >> *w.p[t]; if(is) w.err = "stream state"; }, [](model& w, int t) { if(w.m[t].own) own(w, t, {}); else view(w, t, {}); return true; });
        }
        return v;
    }
    static const std::vector<op>& ops() { static const auto v = make_ops(); return v; }
    struct step { short k; short t; };

    static bool apply(model& w, step s)
    {
        const op& o = ops()[s.k];
        if(o.reads_self && !w.m[s.t].valid) return false;
        if(o.reads_other && !w.m[1 - s.t].valid) return false;
        if(!o.mod(w, s.t)) return false;
        for(auto& m : w.m) { if(m.valid && !fits(m.text)) return false; if(!m.valid) m = {{}, false, m.src, false}; }
        return true;
    }
    static std::string observe(world& w, const model& m)
    {
        if(!w.err.empty()) return w.err;
        for(int i = 0; i < 5; ++i) if(w.e[i] != ext(i)) return "an outside text was modified";
        for(int t = 0; t < 2; ++t)
        {
            const mo& a = m.m[t]; const SC& x = *w.p[t]; std::string n = t ? "y" : "x";
            if(!a.valid) continue;
            if(x.has_ownership() != a.own) return n + (a.own ? " does not own its text" : " owns its text");
            if(x.to_string_view() != a.text) return n + " is [" + show(x.to_string_view()) + "] expected [" + show(a.text) + "]";
            auto u = ref::segment<C>(sv(a.text));
            if(x.size() != a.text.size() || x.empty() != a.text.empty() || x.length() != u.size() || x.data() != x.to_string_view().data()) return n + ": size, length or data";
            if(a.own ? x.capacity() < x.size() : x.capacity() != 0) return n + ": capacity";
            std::size_t i = 0;
            for(auto c : x) { if(i >= u.size() || (u[i].ok && char32_t(c) != u[i].cp)) return n + ": iteration"; ++i; }
            if(i != u.size()) return n + ": iteration ends early";
            if(a.own) for(int k = 0; k < 5; ++k) if(!a.text.empty() && x.data() >= w.e[k].data() && x.data() < w.e[k].data() + w.e[k].size()) return n + " shares an outside text it should own";
        }
        if(m.m[0].valid && m.m[1].valid)
        {
            const SC &x = *w.p[0], &y = *w.p[1]; const str &a = m.m[0].text, &b = m.m[1].text;
            if(m.m[0].own && m.m[1].own && x.data() == y.data()) return "two owners share one text";
            if((x == y) != (a == b)) return "x == y";
            bool well = true; for(auto* p : {&a, &b}) for(auto& u : ref::segment<C>(sv(*p))) well = well && u.ok;
            if(well) { auto da = ref::dec<C>(sv(a)), db = ref::dec<C>(sv(b)); int want = da < db ? -1 : da == db ? 0 : 1; if(x.compare(y) != want || (x < y) != (want < 0) || (y < x) != (want > 0)) return "x.compare(y)"; }
            if(!(a.empty() && b.empty()))
            {
                auto u = ref::segment<C>(sv(a)); std::size_t off = a.size();
                for(auto& e : u) if(sv(a).substr(e.off).substr(0, b.size()) == b) { off = e.off; break; }
                if(std::size_t(x.find(sv(b)).base() - x.data()) != off) return "x.find(y)";
                if(!b.empty() && x.contains(sv(b)) != (off != a.size())) return "x.contains(y)";
            }
            if(x.starts_with(sv(b)) != (sv(a).substr(0, b.size()) == b)) return "x.starts_with(y)";
        }
        return {};
    }
    static std::string key(const model& m)
    {
        std::string k;
        for(auto& a : m.m)
        {
            if(!a.valid) { k += a.own ? "?" : "!"; k += char('1' + a.src); continue; }
            k += show(a.text); k += a.own ? "|own," : a.src < 0 ? "|view," : "|borrow,";
        }
        return k;
    }
    static std::string show(const std::vector<step>& h) { std::string r; for(auto& s : h) r += std::string(s.t ? "y " : "x ") + ops()[s.k].name + "; "; return r; }
    static std::string run(const std::vector<step>& h)
    {
        world w; for(int i = 0; i < 5; ++i) w.e[i] = ext(i);
        w.p[0] = std::make_unique<SC>(); w.p[1] = std::make_unique<SC>(sv(w.e[0]));
        model m; m.m[1] = {{}, false, -1, true};
        for(std::size_t i = 0; i < h.size(); ++i) { apply(m, h[i]); ops()[h[i].k].real(w, h[i].t); }
        return observe(w, m);
    }
    static void explore(vk::S& s)
    {
        // histories are distinguished up to this length, then merged by the abstract state; states reached after
        // more than max steps are not expanded
        const std::size_t plain = vk::thorough() ? 3 : 2, max = vk::thorough() ? 7 : 4;
        std::set<std::string> seen; std::deque<std::pair<std::vector<step>, model>> q;
        model m0; m0.m[1] = {{}, false, -1, true};
        q.push_back({{}, m0});
        while(!q.empty())
        {
            auto [h, m] = q.front(); q.pop_front();
            for(short k = 0; k < short(ops().size()); ++k) for(short t = 0; t < 2; ++t)
            {
                model n = m;
                if(!apply(n, {k, t})) continue;
                auto h2 = h; h2.push_back({k, t});
                if(h2.size() < max && (h2.size() < plain || seen.insert(key(n)).second)) q.push_back({h2, n});
                if(!s.step_all() || !s.mine) continue;
                s.desc(show(h2));
                s.trans(h2.size()); s.state(s.name + key(n)); s.sample(show(h2) + " -> " + key(n));
                std::string e = run(h2);
                if(!e.empty()) s.fail(e);
            }
        }
    }
};

// references: every window of every text
template <typename C> static void refs(vk::S& s)
{
    using str = std::basic_string<C>; using sv = std::basic_string_view<C>; using R = utf::basic_string_ref<C>; using SC = utf::basic_string_container<C>; using H = hist<C>;
    std::vector<C> al{C('a'), H::lead, H::trail, C('b')}; if(sizeof(C) == 1) { al.push_back(C(0xF0)); al.push_back(C(0x9F)); }
    std::vector<str> needles{str()};
    for(std::size_t b = 0, e = 1, l = 0; l < 2; ++l) { for(std::size_t i = b; i < e; ++i) for(C c : al) needles.push_back(needles[i] + c); b = e; e = needles.size(); }
    vk::token_tree(s, unsigned(al.size()), vk::thorough() ? 6 : 4, 1, [&](const std::vector<int>& ix, bool run)
    {
        if(!run) return true;
        str v; for(int i : ix) v += al[i];
        s.desc("text [" + H::show(v) + "]");
        auto u = ref::segment<C>(sv(v)); const std::size_t n = u.size();
        auto at = [&](std::size_t i) { return i < n ? u[i].off : v.size(); };
        s.state(H::show(v));
        for(std::size_t a = 0; a <= n; ++a) for(std::size_t b = a; b <= n; ++b)
        {
            sv win = sv(v).substr(at(a), at(b) - at(a));
            auto wu = ref::segment<C>(win);
            if(wu.size() != b - a) continue; // cutting inside of units that combine differently
            auto wat = [&](std::size_t i) { return i < wu.size() ? wu[i].off : win.size(); };
            R r(v), full(v); r.assign(full.begin() + std::ptrdiff_t(a), full.begin() + std::ptrdiff_t(b));
            s.expect(sv(r) == win && r.length() == b - a, "assign of iterators gives [", H::show(r), "]");
            for(std::size_t k = 0; k <= wu.size() + 2; ++k)
            {
                R p(r), q(r); p.remove_prefix(k); q.remove_suffix(k);
                std::size_t c = std::min(k, wu.size());
                s.expect(sv(p) == win.substr(wat(c)), "remove_prefix ", k, " gives [", H::show(p), "]");
                s.expect(sv(q) == win.substr(0, wat(wu.size() - c)), "remove_suffix ", k, " gives [", H::show(q), "]");
                R x(p), y(q); x.swap(y); s.expect(sv(x) == sv(q) && sv(y) == sv(p), "swap");
                s.trans(3);
            }
            if(!s.ok()) return false;
            if(a && b != n) continue;
            SC c(win);
            for(auto& d : needles)
            {
                for(std::size_t pos = 0; pos <= wu.size() + 1; ++pos)
                {
                    std::size_t off = win.size();
                    for(std::size_t i = pos; i < wu.size(); ++i) if(win.substr(wu[i].off).substr(0, d.size()) == d) { off = wu[i].off; break; }
                    s.expect(std::size_t(r.find(R(d), pos).base() - r.data()) == off, "string_ref::find [", H::show(d), "] from ", pos);
                    s.expect(std::size_t(r.find(d.data(), pos, d.size()).base() - r.data()) == off && std::size_t(r.find(d.c_str(), pos).base() - r.data()) == off, "string_ref::find of a pointer");
                    s.expect(std::size_t(std::as_const(c).find(sv(d), pos).base() - c.data()) == off, "string_container::find [", H::show(d), "] from ", pos);
                    if(!pos && !d.empty()) s.expect(r.contains(R(d)) == (off != win.size()) && c.contains(sv(d)) == (off != win.size()), "contains [", H::show(d), "]");
                }
                bool st = win.substr(0, d.size()) == d, en = win.size() >= d.size() && win.substr(win.size() - d.size()) == d;
                s.expect(r.starts_with(R(d)) == st && r.starts_with(sv(d)) == st && r.starts_with(d.c_str()) == st && c.starts_with(sv(d)) == st && c.starts_with(d.c_str()) == st, "starts_with [", H::show(d), "]");
                s.expect(r.ends_with(R(d)) == en && r.ends_with(d.c_str()) == en, "ends_with [", H::show(d), "]");
                s.trans(5);
                if(!s.ok()) return false;
            }
            for(char32_t ch : {U'a', U'b', U'\u00e9', U'\U0001F600', U'\xff'})
            {
                for(std::size_t pos = 0; pos <= wu.size() + 1; ++pos)
                {
                    std::size_t off = win.size(); bool unsure = false;
                    for(std::size_t i = pos; i < wu.size(); ++i) { if(!wu[i].ok) { unsure = true; } else if(wu[i].cp == ch) { off = wu[i].off; break; } }
                    if(unsure && sizeof(C) == 1) continue; // the value of an invalid unit is not specified
                    s.expect(std::size_t(r.find(utf::codepoint(ch), pos).base() - r.data()) == off && std::size_t(std::as_const(c).find(utf::codepoint(ch), pos).base() - c.data()) == off, "find of code point ", std::uint32_t(ch), " from ", pos);
                    if(!pos) s.expect(r.contains(utf::codepoint(ch)) == (off != win.size()) && c.contains(utf::codepoint(ch)) == (off != win.size()), "contains code point");
                }
                bool st = !wu.empty() && wu[0].ok && wu[0].cp == ch, en = !wu.empty() && wu.back().ok && wu.back().cp == ch;
                if(wu.empty() || wu[0].ok) s.expect(r.starts_with(utf::codepoint(ch)) == st && c.starts_with(utf::codepoint(ch)) == st, "starts_with code point");
                if(wu.empty() || wu.back().ok) s.expect(r.ends_with(utf::codepoint(ch)) == en, "ends_with code point");
            }
        }
        // an owner made of it is independent
        { SC o(papilio::independent, v.c_str(), v.size()); str z(v); z[0] = C('z'); s.expect(o.to_string_view() == v && o.has_ownership(), "independent copy"); R r; r = v; s.expect(sv(r) == v, "= string"); r = sv(z); s.expect(sv(r) == z, "= string_view"); R d; s.expect(d.empty() && d.length() == 0 && d.begin() == d.end(), "empty reference"); }
        return true;
    });
}
// reading a container from a stream
template <typename C> static void streams(vk::S& s)
{
    using str = std::basic_string<C>; using SC = utf::basic_string_container<C>;
    std::vector<C> al{C('a'), C(' '), C('\n'), hist<C>::lead, hist<C>::trail};
    vk::token_tree(s, 5, vk::thorough() ? 7 : 5, 1, [&](const std::vector<int>& ix, bool run)
    {
        if(!run) return true;
        str v; for(int i : ix) v += al[i];
        s.desc("input [" + hist<C>::show(v) + "]"); s.trans();
        std::basic_istringstream<C> a(v), b(v);
        for(int k = 0; k < 5; ++k)
        {
            str x; SC y{std::basic_string_view<C>(v)}; if(k & 1) y.obtain_ownership();
            if(k == 3) { a.width(1); b.width(1); }
            a >> x; b >> y;
            s.expect(a.rdstate() == b.rdstate(), "state after reading ", k);
            s.expect(a ? y.to_string_view() == x && y.has_ownership() : y.empty(), "word ", k, " is [", hist<C>::show(y), "]");
            std::basic_ostringstream<C> o; o << y; s.expect(o.str() == y.to_string_view(), "operator<<");
        }
        return true;
    });
}
int main(int argc, char** argv)
{
    vk::section("histories: char", hist<char>::explore);
    vk::section("histories: char16_t", hist<char16_t>::explore);
    vk::section("histories: char32_t", [](vk::S& s) { if(vk::thorough()) hist<char32_t>::explore(s); });
    vk::section("histories: wchar_t", hist<wchar_t>::explore);
    vk::section("histories: char8_t", [](vk::S& s) { if(vk::thorough()) hist<char8_t>::explore(s); });
    vk::section("references: char", refs<char>);
    vk::section("references: char8_t", [](vk::S& s) { if(vk::thorough()) refs<char8_t>(s); });
    vk::section("references: char16_t", refs<char16_t>);
    vk::section("references: wchar_t", refs<wchar_t>);
    vk::section("streams: char", streams<char>);
    vk::section("streams: wchar_t", streams<wchar_t>);
    return vk::main(argc, argv, "C11");
}
