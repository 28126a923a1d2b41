// vk.hpp - the bounded exhaustive explorer shared by all harnesses.
//
// A harness is a list of sections.  A section enumerates, in a fixed order and
// without randomness, every case of a finite space.  For each case it calls
//      if(!s.next()) continue;      // is this case mine (shard, skip list, replay)?
//      s.desc(text);                // what the case is, published before it runs
//      ... run the real code, compare with the reference ...
//      s.fail(text) when they differ
// The cases are split over forked workers.  A worker that dies (sanitizer
// report, signal, library assertion) or stops making progress is a failing case
// too: its parent knows the case from shared memory.  Every failing case is
// executed again, alone, before it is reported.
#pragma once
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <algorithm>
#include <chrono>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <functional>
#include <map>
#include <new>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <unordered_set>
#include <vector>

namespace vk
{
using u64 = std::uint64_t;

inline u64 hash_bytes(const void* p, std::size_t n, u64 h = 1469598103934665603ull)
{
    auto* b = static_cast<const unsigned char*>(p);
    for(std::size_t i = 0; i < n; ++i) { h ^= b[i]; h *= 1099511628211ull; }
    h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ull; h ^= h >> 32;
    return h;
}
inline u64 hash_str(std::string_view s, u64 h = 1469598103934665603ull) { return hash_bytes(s.data(), s.size(), h); }

inline std::string hex_escape(std::string_view s)
{
    std::string r;
    char b[8];
    for(unsigned char c : s)
    {
        if(c == '\\') r += "\\\\";
        else if(c >= 0x20 && c < 0x7f) r += char(c);
        else { std::snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    }
    return r;
}
inline std::string json_str(std::string_view s)
{
    std::string r = "\"";
    char b[8];
    for(unsigned char c : s)
    {
        if(c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if(c >= 0x20 && c < 0x7f) r += char(c);
        else { std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    }
    return r + "\"";
}

constexpr std::size_t DESC = 6000;
constexpr int MAXW = 64;

struct slot // one worker's shared state
{
    volatile u64 beat;      // any progress
    volatile int section;   // -1: not inside a case
    volatile u64 idx;
    volatile u64 desc_len;
    char desc[DESC];
    // results
    volatile u64 cases, transitions, nstates;
    volatile int done;
};

struct failure
{
    int section; u64 idx; std::string desc, detail; bool crash;
};

struct globals
{
    int nshards = 1, shard = 0;
    bool replay = false; int rep_section = -1; u64 rep_idx = 0;
    std::set<std::pair<int, u64>> skip;
    std::set<std::string> known;
    std::string tier = "quick";
    slot* me = nullptr;
    std::unordered_set<u64> states;
    std::vector<std::string> samples;
    int fail_fd = -1;
    u64 nfail = 0;
    std::string workdir;
    bool thorough() const { return tier == "thorough"; }
};
inline globals G;
inline bool thorough() { return G.thorough(); }
// the --part name, before vk::main has parsed the arguments (parts may share a binary)
inline std::string part(int argc, char** argv) { for(int i = 1; i + 1 < argc; ++i) if(std::string(argv[i]) == "--part") return argv[i + 1]; return "main"; }

struct case_failed {}; // thrown by s.fail(); not a std::exception on purpose

class S
{
public:
    int sec; std::string name;
    u64 n = 0;          // index of the current case + 1
    bool live = false;

    bool next()
    {
        flush();
        u64 i = n++;
        if(G.replay)
        {
            if(sec != G.rep_section || i != G.rep_idx) return false;
        }
        else
        {
            if(G.nshards > 1 && int((i * 0x9E3779B97F4A7C15ull >> 33) % u64(G.nshards)) != G.shard) return false;
            if(!G.skip.empty() && G.skip.count({sec, i})) return false;
        }
        live = true; mine = true;
        G.me->idx = i; G.me->section = sec; G.me->desc_len = 0;
        G.me->beat = G.me->beat + 1;
        return true;
    }
    // For explorations whose state graph every worker has to build itself: the
    // case runs in every worker (only skipped cases return false), but counts,
    // and gets the expensive treatment (mine == true), in one of them.
    bool mine = true;
    bool step_all()
    {
        flush();
        u64 i = n++;
        if(!G.skip.empty() && G.skip.count({sec, i})) return false;
        mine = G.replay ? i == G.rep_idx : (G.nshards <= 1 || int(i % u64(G.nshards)) == G.shard);
        live = true;
        G.me->idx = i; G.me->section = sec; G.me->desc_len = 0;
        G.me->beat = G.me->beat + 1;
        return true;
    }

    // For token trees: the case carries its own index, run == false means that
    // another worker executes it (or that it is skipped).
    bool enter(u64 id, bool owner)
    {
        flush();
        n = id + 1;
        if(G.replay) { if(sec != G.rep_section || id != G.rep_idx) return false; }
        else if(!owner || (!G.skip.empty() && G.skip.count({sec, id}))) return false;
        live = true; mine = true;
        G.me->idx = id; G.me->section = sec; G.me->desc_len = 0;
        G.me->beat = G.me->beat + 1;
        return true;
    }
    static bool owner(u64 key) { return G.replay || G.nshards <= 1 || int((key * 0x9E3779B97F4A7C15ull >> 33) % u64(G.nshards)) == G.shard; }

    void desc(std::string_view d)
    {
        std::size_t len = d.size() < DESC ? d.size() : DESC;
        std::memcpy(G.me->desc, d.data(), len);
        G.me->desc_len = len;
    }
    std::string cur_desc() const { return std::string(G.me->desc, G.me->desc + G.me->desc_len); }
    void trans(u64 k = 1) { G.me->transitions = G.me->transitions + k; }
    void state(u64 h) { G.states.insert(h); }
    void state(std::string_view sv) { G.states.insert(hash_str(sv, 0x1234567 + sec)); }
    void sample(std::string t) { if(G.samples.size() < 6 && (n % 97 == 1 || G.samples.size() < 2)) G.samples.push_back(name + ": " + std::move(t)); }

    void fail(std::string_view detail)
    {
        if(!live) return;
        live = false;
        if(G.replay && G.me->idx != G.rep_idx) return;
        ++G.nfail;
        std::string d = cur_desc();
        std::string rec = std::to_string(sec) + " " + std::to_string(G.me->idx) + " "
            + std::to_string(d.size()) + " " + std::to_string(detail.size()) + "\n" + d + std::string(detail) + "\n";
        if(write(G.fail_fd, rec.data(), rec.size()) < 0) {}
        G.me->section = -1;
        if(G.nfail >= 40) { G.me->done = 2; _exit(0); }
    }
    bool ok() const { return live; }
    template <typename... A>
    void expect(bool c, A&&... a)
    {
        if(c || !live) return;
        std::ostringstream o; (o << ... << a);
        fail(o.str());
    }
    void eq(std::string_view what, std::string_view got, std::string_view want)
    {
        if(got == want || !live) return;
        fail(std::string(what) + ": got [" + hex_escape(got) + "] expected [" + hex_escape(want) + "]");
    }
    void flush()
    {
        if(live) { if(mine) G.me->cases = G.me->cases + 1; live = false; G.me->section = -1; }
    }
};

// Explores the tree of token strings t[0..len), len <= maxlen, over K tokens.
// f(tokens, run) executes the case when run is true and returns whether the
// string can be extended.  Subtrees are dealt out at depth `sd`.
template <typename F>
void token_tree(S& s, unsigned K, unsigned maxlen, unsigned sd, F f)
{
    std::vector<int> t;
    std::vector<int> path; // of the replayed case
    if(G.replay) for(u64 v = G.rep_idx; v; v /= K + 1) path.push_back(int(v % (K + 1)) - 1);
    auto rec = [&](auto& self, u64 id, u64 mult) -> void
    {
        for(unsigned k = 0; k < K; ++k)
        {
            std::size_t d = t.size();
            if(G.replay && (d >= path.size() || path[d] != int(k))) continue;
            u64 me = id + (k + 1) * mult;
            bool own = d + 1 > sd || S::owner(me);
            if(d + 1 == sd && !own) continue;
            t.push_back(int(k));
            bool more = f(t, s.enter(me, own));
            if(more && t.size() < maxlen) self(self, me, mult * (K + 1));
            t.pop_back();
        }
    };
    rec(rec, 0, 1);
}

using section_fn = std::function<void(S&)>;
inline std::vector<std::pair<std::string, section_fn>>& sections()
{
    static std::vector<std::pair<std::string, section_fn>> v;
    return v;
}
inline void section(std::string name, section_fn f) { sections().emplace_back(std::move(name), std::move(f)); }

inline void run_sections()
{
    int i = 0;
    for(auto& [name, f] : sections())
    {
        int me = i++;
        if(G.replay && me != G.rep_section) continue;
        if(const char* o = getenv("VK_ONLY")) { if(atoi(o) != me) continue; } // development: time one section
        S s; s.sec = me; s.name = name;
        f(s);
        s.flush();
    }
}

inline void worker_main(slot* sl, const std::string& errfile, int fail_fd, bool dump)
{
    G.me = sl; G.fail_fd = fail_fd;
    int fd = open(errfile.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644);
    dup2(fd, 2);
    int nul = open("/dev/null", O_WRONLY); dup2(nul, 1);
    run_sections();
    sl->nstates = G.states.size();
    if(dump)
    {
        std::string f = G.workdir + "/states." + std::to_string(G.shard);
        FILE* o = fopen(f.c_str(), "wb");
        if(o)
        {
            std::vector<u64> v(G.states.begin(), G.states.end());
            if(!v.empty()) fwrite(v.data(), 8, v.size(), o);
            fclose(o);
        }
        std::ofstream so(G.workdir + "/samples." + std::to_string(G.shard));
        for(auto& x : G.samples) so << json_str(x) << "\n";
    }
    sl->done = 1;
    _exit(0);
}

inline std::string slurp(const std::string& f)
{
    std::ifstream i(f, std::ios::binary); std::ostringstream o; o << i.rdbuf(); return o.str();
}

inline std::string crash_summary(const std::string& err)
{
    std::istringstream i(err); std::string l, first, r; int k = 0;
    while(std::getline(i, l))
    {
        bool hit = l.find("runtime error") != l.npos || l.find("ERROR: ") != l.npos || l.find("Assert") != l.npos
            || l.find("terminate called") != l.npos || l.find("assertion") != l.npos || l.find("what():") != l.npos;
        bool frame = l.find("    #") == 0 && (l.find("papilio") != l.npos) && k < 8;
        if(hit || frame) { r += l.substr(0, 300) + "\n"; ++k; }
    }
    return r;
}

inline std::vector<failure> read_failures(const std::string& f)
{
    std::vector<failure> v;
    std::string all = slurp(f);
    std::size_t p = 0;
    while(p < all.size())
    {
        int sec; unsigned long long idx, a, b; int used = 0;
        if(sscanf(all.c_str() + p, "%d %llu %llu %llu\n%n", &sec, &idx, &a, &b, &used) < 4) break;
        // %n after \n may swallow leading whitespace of the description: recompute
        std::size_t nl = all.find('\n', p);
        p = nl + 1;
        if(p + a + b > all.size()) break;
        v.push_back({sec, u64(idx), all.substr(p, a), all.substr(p + a, b), false});
        p += a + b + 1;
    }
    return v;
}

// run one worker to completion under the hang watchdog
struct child { pid_t pid; slot* sl; int shard; u64 last = ~0ull; double last_t = 0; std::string err, fails; bool over = false; bool hung = false; int status = 0; };

inline double now()
{
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}

inline child spawn(int shard, int nshards, slot* sl, const std::string& tag, bool dump)
{
    child c; c.shard = shard; c.sl = sl;
    c.err = G.workdir + "/err." + tag; c.fails = G.workdir + "/fail." + tag;
    std::fflush(nullptr);
    c.pid = fork();
    if(c.pid == 0)
    {
        G.shard = shard; G.nshards = nshards;
        int fd = open(c.fails.c_str(), O_CREAT | O_WRONLY | O_APPEND, 0644);
        worker_main(sl, c.err, fd, dump);
    }
    c.last_t = now();
    return c;
}

inline void reap(child& c, double hang_limit)
{
    int st = 0;
    pid_t r = waitpid(c.pid, &st, WNOHANG);
    if(r == c.pid) { c.over = true; c.status = st; return; }
    u64 b = c.sl->beat;
    double t = now();
    if(b != c.last) { c.last = b; c.last_t = t; }
    else if(t - c.last_t > hang_limit)
    {
        kill(c.pid, SIGKILL);
        waitpid(c.pid, &st, 0);
        c.over = true; c.hung = true; c.status = st;
    }
}

inline int main(int argc, char** argv, const char* prop)
{
    int jobs = 8; double hang = 25; std::string out, knownfile, replay_dir = ".", part = "main";
    u64 maxviol = 5; bool one = false;
    for(int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if(a == "--tier") G.tier = val();
        else if(a == "--jobs") jobs = atoi(val().c_str());
        else if(a == "--out") out = val();
        else if(a == "--known") knownfile = val();
        else if(a == "--replay-dir") replay_dir = val();
        else if(a == "--part") part = val();
        else if(a == "--hang") hang = atof(val().c_str());
        else if(a == "--case") { G.rep_section = atoi(val().c_str()); G.rep_idx = strtoull(val().c_str(), nullptr, 10); one = true; }
        else if(a == "--max") maxviol = strtoull(val().c_str(), nullptr, 10);
        else if(a == "--list") { int k = 0; for(auto& s : sections()) printf("%d %s\n", k++, s.first.c_str()); return 0; }
    }
    if(!knownfile.empty())
    {
        std::ifstream i(knownfile); std::string l;
        std::string pre = std::string("property=") + prop + " case=";
        while(std::getline(i, l))
            if(l.rfind(pre, 0) == 0) { auto e = l.find(" :: "); G.known.insert(l.substr(pre.size(), e == l.npos ? l.npos : e - pre.size())); }
    }
    char tmpl[] = "/tmp/vk-XXXXXX";
    G.workdir = mkdtemp(tmpl);
    auto* sh = static_cast<slot*>(mmap(nullptr, sizeof(slot) * (MAXW + 1), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    if(one)
    {
        G.replay = true;
        child c = spawn(0, 1, &sh[0], "one", false);
        while(!c.over) { usleep(2000); reap(c, 60); }
        std::string err = slurp(c.err);
        auto f = read_failures(c.fails);
        int rc = 0;
        if(!f.empty()) { printf("FAIL case=%s\n%s\n", f[0].desc.c_str(), f[0].detail.c_str()); rc = 1; }
        else if(c.hung) { printf("HANG case=%s\n", std::string(c.sl->desc, c.sl->desc_len).c_str()); rc = 1; }
        else if(c.sl->done != 1) { printf("CRASH case=%s\n%s\n", std::string(c.sl->desc, c.sl->desc_len).c_str(), err.substr(0, 6000).c_str()); rc = 1; }
        else if(c.sl->cases == 0) { printf("no such case\n"); rc = 2; }
        else printf("OK case=%s\n", std::string(c.sl->desc, c.sl->desc_len).c_str());
        std::string cmd = "rm -rf " + G.workdir; if(system(cmd.c_str())) {}
        return rc;
    }
    // exploration
    std::vector<failure> fails;
    std::set<std::pair<int, u64>> seen_fail;
    u64 cases = 0, transitions = 0, restarts = 0; bool capped = false;
    if(jobs > MAXW) jobs = MAXW;
    std::vector<std::set<std::pair<int, u64>>> skips(jobs);
    std::vector<child> ch;
    for(int i = 0; i < jobs; ++i) ch.push_back(spawn(i, jobs, &sh[i], std::to_string(i), true));
    auto harvest = [&](const std::string& f)
    {
        auto fresh = read_failures(f);
        for(auto& x : fresh) if(seen_fail.insert({x.section, x.idx}).second) fails.push_back(x);
    };
    int running = jobs; bool stop = false;
    auto unknown_count = [&] { u64 k = 0; std::set<std::string> d; for(auto& f : fails) if(!G.known.count(hex_escape(f.desc)) && d.insert(f.desc).second) ++k; return k; };
    while(running > 0)
    {
        usleep(3000);
        for(auto& c : ch)
        {
            if(c.over) continue;
            reap(c, hang);
            if(!c.over) continue;
            harvest(c.fails);
            if(c.sl->done == 1 || c.sl->done == 2) { if(c.sl->done == 2) capped = true; --running; continue; }
            // died inside (or between) cases
            failure f;
            f.section = c.sl->section; f.idx = c.sl->idx; f.crash = true;
            f.desc = std::string(c.sl->desc, c.sl->desc_len);
            std::string err = slurp(c.err);
            f.detail = c.hung ? "no progress (hang)" : "died, wait status " + std::to_string(c.status) + "\n" + crash_summary(err);
            if(f.section < 0)
            {
                printf("vk: worker died outside a case: %s\n%s\n", f.detail.c_str(), err.substr(0, 2000).c_str());
                std::string cmd = "rm -rf " + G.workdir; if(system(cmd.c_str())) {}
                for(auto& o : ch) if(!o.over) { kill(o.pid, SIGKILL); waitpid(o.pid, nullptr, 0); }
                return 3;
            }
            if(seen_fail.insert({f.section, f.idx}).second) fails.push_back(f);
            ++restarts;
            if(unknown_count() >= maxviol || restarts > 400) { stop = true; capped = true; --running; continue; }
            skips[c.shard].insert({f.section, f.idx});
            G.skip = skips[c.shard];
            // everything is deterministic: start the shard again without the fatal cases
            u64 beat = c.sl->beat;
            int shard = c.shard;
            for(auto& x : read_failures(c.fails)) { skips[shard].insert({x.section, x.idx}); G.skip.insert({x.section, x.idx}); }
            std::memset((void*)c.sl, 0, offsetof(slot, desc)); c.sl->cases = 0; c.sl->transitions = 0; c.sl->done = 0; c.sl->beat = beat + 1;
            c = spawn(shard, jobs, &sh[shard], std::to_string(shard), true);
            G.skip.clear();
        }
        if(unknown_count() >= maxviol) stop = true;
        if(stop)
        {
            for(auto& c : ch) if(!c.over) { kill(c.pid, SIGKILL); waitpid(c.pid, nullptr, 0); c.over = true; harvest(c.fails); }
            capped = true;
            break;
        }
    }
    std::vector<u64> all;
    std::vector<std::string> samples;
    for(int i = 0; i < jobs; ++i)
    {
        cases += sh[i].cases; transitions += sh[i].transitions;
        std::string d = slurp(G.workdir + "/states." + std::to_string(i));
        std::size_t k = d.size() / 8, o = all.size();
        all.resize(o + k);
        if(k) std::memcpy(all.data() + o, d.data(), k * 8);
        std::ifstream si(G.workdir + "/samples." + std::to_string(i)); std::string l;
        while(samples.size() < 6 && std::getline(si, l)) samples.push_back(l);
    }
    std::sort(all.begin(), all.end());
    all.erase(std::unique(all.begin(), all.end()), all.end());

    // confirm
    std::sort(fails.begin(), fails.end(), [](auto& a, auto& b) { return std::tie(a.section, a.idx) < std::tie(b.section, b.idx); });
    u64 violations = 0; std::set<std::string> known_hit, reported;
    for(auto& f : fails)
    {
        std::string key = hex_escape(f.desc);
        if(G.known.count(key))
        {
            if(known_hit.insert(key).second) printf("KNOWN-FINDING: property=%s %s\n", prop, key.c_str());
            continue;
        }
        if(reported.count(key)) continue;
        if(violations >= maxviol) { capped = true; break; }
        G.replay = true; G.rep_section = f.section; G.rep_idx = f.idx; G.skip.clear();
        slot* sl = &sh[MAXW]; std::memset((void*)sl, 0, sizeof(slot));
        unlink((G.workdir + "/fail.confirm").c_str());
        child c = spawn(0, 1, sl, "confirm", false);
        while(!c.over) { usleep(2000); reap(c, 90); }
        bool again = c.hung || sl->done != 1 || !read_failures(c.fails).empty();
        if(!again)
        {
            printf("vk: not reproduced alone, not reported: section %s case %s: %s\n", sections()[f.section].first.c_str(), key.c_str(), f.detail.c_str());
            continue;
        }
        reported.insert(key);
        ++violations;
        char nm[64]; std::snprintf(nm, sizeof nm, "%s-%s-%d-%llu.txt", prop, part.c_str(), f.section, (unsigned long long)f.idx);
        std::string path = replay_dir + "/" + nm;
        std::ofstream o(path);
        o << "property: " << prop << "\npart: " << part << "\ntier: " << G.tier << "\nsection: " << f.section << " (" << sections()[f.section].first << ")\nindex: " << f.idx
          << "\ncase: " << key << "\n\n" << f.detail << "\n\nreplay: ./run.py " << prop << " --part " << part << " --tier " << G.tier << " --case " << f.section << " " << f.idx << "\n";
        printf("VIOLATION property=%s replay=%s\n   section=%s case=%s\n   %s\n", prop, path.c_str(), sections()[f.section].first.c_str(), key.c_str(), f.detail.substr(0, 1500).c_str());
    }
    if(!out.empty())
    {
        std::ofstream o(out);
        o << "{\"part\":" << json_str(part) << ",\"sections\":" << sections().size() << ",\"cases\":" << cases << ",\"transitions\":" << transitions << ",\"states\":" << all.size()
          << ",\"violations\":" << violations << ",\"known\":" << known_hit.size() << ",\"capped\":" << (capped ? "true" : "false") << ",\"samples\":[";
        for(std::size_t i = 0; i < samples.size(); ++i) o << (i ? "," : "") << samples[i];
        o << "]}\n";
    }
    printf("%s[%s]: cases=%llu transitions=%llu states=%zu violations=%llu known=%zu%s\n", prop, part.c_str(), (unsigned long long)cases, (unsigned long long)transitions, all.size(), (unsigned long long)violations, known_hit.size(), capped ? " (stopped early)" : "");
    std::string cmd = "rm -rf " + G.workdir; if(system(cmd.c_str())) {}
    std::fflush(stdout);
    return violations ? 1 : 0;
}
} // namespace vk
