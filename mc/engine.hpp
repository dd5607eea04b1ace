// Explicit exhaustive-exploration engine.
//
// A check is a list of phases.  A phase is a finite, completely indexed space of cases (an input, a history, a
// fault point, a schedule ...); `run(i)` builds case i from its index alone and drives the real library with it,
// comparing every observation with the reference model.  The engine enumerates *every* index of every phase, in
// parallel worker processes, attributes crashes and hangs to the case that caused them, replays a failing case in
// fresh processes before reporting it, and counts what was actually covered.
#pragma once
#include <array>
#include <atomic>
#include <cerrno>
#include <chrono>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <new>
#include <set>
#include <sstream>
#include <string>
#include <string_view>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <type_traits>
#include <unistd.h>
#include <vector>

namespace mc
{
struct Violation
{
    std::string msg;
    std::string key;
};

struct Phase
{
    std::string name;
    uint64_t count;
    std::function<void(uint64_t)> run;
    std::function<std::string(uint64_t)> describe;
    uint64_t chunk = 0;       // 0: chosen automatically
    unsigned case_secs = 20;  // per-case watchdog (a hang is re-run alone with more time)
};

constexpr int kMaxPhases = 128;
constexpr int kMaxSlots = 16;
constexpr uint64_t kTable = 1ull << 25;
constexpr uint64_t kOutTable = 1ull << 20;
constexpr size_t kHist = 1 << 16;

struct Slot
{
    std::atomic<uint64_t> phase, cur, chunk_end;
    std::atomic<uint64_t> started_ms; // 0: idle
    std::atomic<uint32_t> failed;
    char key[1024];
    char msg[16384];
    uint64_t nhist;
    struct
    {
        uint32_t phase;
        uint64_t lo, hi;
    } hist[kHist];
};

struct Shared
{
    std::atomic<uint64_t> next[kMaxPhases], done[kMaxPhases];
    std::atomic<uint64_t> cases, transitions, validated, states, outcomes;
    std::atomic<uint64_t> saturated, stop, skipped;
    std::atomic<uint64_t> user[16];
    Slot slots[kMaxSlots];
    std::atomic<uint64_t> table[kTable];
    std::atomic<uint64_t> otable[kOutTable];
};

inline Shared* g = nullptr;
inline std::string g_tier = "quick";
inline std::string g_variant = "default";
inline std::string g_scratch = "/tmp";
inline bool thorough() { return g_tier == "thorough"; }

inline uint64_t now_ms()
{
    using namespace std::chrono;
    return duration_cast<milliseconds>(steady_clock::now().time_since_epoch()).count();
}

inline uint64_t mix(uint64_t x)
{
    x += 0x9e3779b97f4a7c15ull;
    x = (x ^ (x >> 30)) * 0xbf58476d1ce4e5b9ull;
    x = (x ^ (x >> 27)) * 0x94d049bb133111ebull;
    return x ^ (x >> 31);
}
inline uint64_t hash(std::string_view s, uint64_t seed = 0)
{
    uint64_t h = mix(seed ^ s.size());
    size_t i = 0;
    for (; i + 8 <= s.size(); i += 8) {
        uint64_t w;
        memcpy(&w, s.data() + i, 8);
        h = mix(h ^ w);
    }
    uint64_t w = 0;
    if (i < s.size()) memcpy(&w, s.data() + i, s.size() - i);
    return mix(h ^ w ^ (uint64_t(s.size() - i) << 56));
}

inline bool insert(std::atomic<uint64_t>* t, uint64_t cap, std::atomic<uint64_t>& counter, uint64_t h)
{
    if (h == 0) h = 1;
    if (counter.load(std::memory_order_relaxed) > cap / 4 * 3) {
        g->saturated = 1;
        return false;
    }
    for (uint64_t i = h & (cap - 1);; i = (i + 1) & (cap - 1)) {
        uint64_t cur = t[i].load(std::memory_order_relaxed);
        if (cur == h) return false;
        if (cur == 0) {
            if (t[i].compare_exchange_strong(cur, h)) {
                counter.fetch_add(1, std::memory_order_relaxed);
                return true;
            }
            if (cur == h) return false;
        }
    }
}

// One distinct explored state (input, tree, configuration, heap position ...).
inline bool state(uint64_t h) { return insert(g->table, kTable, g->states, h); }
inline bool statei(uint64_t i, uint64_t tag) { return state(mix(mix(i + 1) ^ (tag + 77))); }
inline bool state(std::string_view s, uint64_t seed = 0) { return state(hash(s, seed)); }
// One distinct observed outcome.
inline bool outcome(uint64_t h) { return insert(g->otable, kOutTable, g->outcomes, h); }
inline bool outcome(std::string_view s) { return outcome(hash(s)); }
// Steps taken by the real implementation.
inline void step(uint64_t n = 1) { g->transitions.fetch_add(n, std::memory_order_relaxed); }
// Complete model traces whose observations were compared with the implementation.
inline void validated(uint64_t n = 1) { g->validated.fetch_add(n, std::memory_order_relaxed); }

[[noreturn]] inline void fail(const std::string& msg, const std::string& key = "")
{
    throw Violation { msg, key };
}

inline std::string show(std::string_view s, size_t max = 400)
{
    std::string r = "\"";
    size_t n = 0;
    for (unsigned char c : s) {
        if (n++ >= max) {
            r += "...(" + std::to_string(s.size()) + " bytes)";
            break;
        }
        char b[8];
        if (c == '"' || c == '\\') {
            r += '\\';
            r += char(c);
        }
        else if (c < 0x20 || c >= 0x7f) {
            snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        }
        else {
            r += char(c);
        }
    }
    return r + "\"";
}

inline void check(bool ok, const char* what)
{
    if (!ok) fail(what);
}
template <typename F, typename = std::enable_if_t<std::is_invocable_v<F>>>
inline void check(bool ok, F&& what)
{
    if (!ok) fail(what());
}

// Mixed radix decoding of a case index.
struct Dec
{
    uint64_t v;
    explicit Dec(uint64_t x) : v(x) {}
    uint64_t operator()(uint64_t n)
    {
        uint64_t r = v % n;
        v /= n;
        return r;
    }
};
inline uint64_t ipow(uint64_t b, unsigned e)
{
    uint64_t r = 1;
    while (e--) r *= b;
    return r;
}

inline std::string jesc(std::string_view s)
{
    std::string r = "\"";
    for (unsigned char c : s) {
        char b[8];
        if (c == '"' || c == '\\') {
            r += '\\';
            r += char(c);
        }
        else if (c < 0x20 || c >= 0x7f) {
            snprintf(b, sizeof b, "\\u%04x", c);
            r += b;
        }
        else {
            r += char(c);
        }
    }
    return r + "\"";
}

class Engine
{
public:
    std::vector<Phase> phases;
    std::vector<std::string> notes;

    void add(std::string name, uint64_t count, std::function<void(uint64_t)> run, std::function<std::string(uint64_t)> describe = {},
             uint64_t chunk = 0, unsigned case_secs = 20)
    {
        phases.push_back({ std::move(name), count, std::move(run), std::move(describe), chunk, case_secs });
    }

    std::string id, out = "/dev/null", known_file, replay_dir = "/tmp", scratch = "/tmp";
    double deadline = 0;
    int workers = 8;

    int main(int argc, char** argv, const std::function<void(Engine&)>& setup)
    {
        std::string replay_spec;
        std::string only;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            auto nx = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
            if (a == "--id") id = nx();
            else if (a == "--tier") g_tier = nx();
            else if (a == "--variant") g_variant = nx();
            else if (a == "--out") out = nx();
            else if (a == "--known") known_file = nx();
            else if (a == "--replay-dir") replay_dir = nx();
            else if (a == "--scratch") scratch = nx();
            else if (a == "--deadline") deadline = atof(nx().c_str());
            else if (a == "--workers") workers = atoi(nx().c_str());
            else if (a == "--replay") replay_spec = nx();
            else if (a == "--phase") only = nx();
        }
        if (workers > kMaxSlots) workers = kMaxSlots;
        g_scratch = scratch;
        void* p = mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) {
            perror("mmap");
            return 3;
        }
        g = new (p) Shared;
        setup(*this);
        if (!only.empty()) {
            std::vector<Phase> keep;
            for (auto& ph : phases)
                if (ph.name.find(only) != std::string::npos) keep.push_back(ph);
            phases = keep;
        }
        for (auto& ph : phases)
            if (ph.chunk == 0) {
                ph.chunk = ph.count / (uint64_t(workers) * 64);
                if (ph.chunk < 1) ph.chunk = 1;
                if (ph.chunk > 4096) ph.chunk = 4096;
            }
        load_known();
        argv0 = argv[0];
        if (!replay_spec.empty()) return replay_main(replay_spec);
        return explore();
    }

private:
    std::string argv0;
    struct Known
    {
        std::string key;
        std::string what;
        bool seen = false;
    };
    std::vector<Known> known;

    void load_known()
    {
        // lines:  known: property=<id> key=<phase:case key> <what fails>
        if (known_file.empty()) return;
        std::ifstream f(known_file);
        std::string l;
        const std::string pre = "known: property=" + id + " key=";
        while (std::getline(f, l)) {
            if (l.compare(0, pre.size(), pre) != 0) continue;
            auto rest = l.substr(pre.size());
            auto sp = rest.find(' ');
            known.push_back({ rest.substr(0, sp), sp == std::string::npos ? "" : rest.substr(sp + 1) });
        }
    }

    std::string describe(uint64_t ph, uint64_t i)
    {
        try {
            if (phases[ph].describe) return phases[ph].describe(i);
        }
        catch (...) {
            return "(description failed)";
        }
        return "#" + std::to_string(i);
    }

    static void set_stderr(int slot, const std::string& dir)
    {
        std::string f = dir + "/stderr." + std::to_string(slot);
        int fd = ::open(f.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0644);
        if (fd >= 0) {
            dup2(fd, 2);
            close(fd);
        }
    }

    bool run_one(Slot& s, uint64_t ph, uint64_t i)
    {
        s.phase = ph;
        s.cur = i;
        s.started_ms = now_ms();
        std::string msg, key;
        bool bad = false;
        try {
            phases[ph].run(i);
        }
        catch (const Violation& v) {
            bad = true;
            msg = v.msg;
            key = v.key;
        }
        catch (const std::exception& e) {
            bad = true;
            msg = std::string("unexpected exception: ") + e.what();
        }
        catch (...) {
            bad = true;
            msg = "unexpected exception of unknown type";
        }
        if (bad) {
            snprintf(s.key, sizeof s.key, "%s", key.c_str());
            snprintf(s.msg, sizeof s.msg, "%s", msg.c_str());
            s.failed = 1;
            return false;
        }
        g->cases.fetch_add(1, std::memory_order_relaxed);
        g->done[ph].fetch_add(1, std::memory_order_relaxed);
        return true;
    }

    [[noreturn]] void worker(int k, bool resume)
    {
        set_stderr(k, scratch);
        Slot& s = g->slots[k];
        uint64_t ph = 0, lo = 0, hi = 0;
        if (resume) {
            ph = s.phase;
            lo = s.cur + 1;
            hi = s.chunk_end;
        }
        s.nhist = 0;
        s.failed = 0;
        s.key[0] = s.msg[0] = 0;
        for (;;) {
            if (lo < hi && s.nhist < kHist) s.hist[s.nhist++] = { uint32_t(ph), lo, hi };
            for (uint64_t i = lo; i < hi; ++i) {
                if (g->stop) _exit(0);
                if (!run_one(s, ph, i)) _exit(10);
            }
            for (; ph < phases.size(); ++ph) {
                lo = g->next[ph].fetch_add(phases[ph].chunk);
                if (lo < phases[ph].count) break;
            }
            if (ph >= phases.size()) break;
            hi = std::min(lo + phases[ph].chunk, phases[ph].count);
            s.chunk_end = hi;
        }
        s.started_ms = 0;
        _exit(0);
    }

    struct Cand
    {
        uint64_t ph, idx;
        std::string msg, key, err;
        std::vector<std::array<uint64_t, 3>> hist;
        bool hang; // found hanging when run alone: confirmed already
    };

    // Re-runs cases in a fresh process: 0 ok, 1 failed (msg filled), 2 hang
    int rerun(const std::vector<std::array<uint64_t, 3>>& ranges, unsigned secs, std::string& msg, uint64_t ph, uint64_t idx)
    {
        Slot& s = g->slots[kMaxSlots - 1];
        s.failed = 0;
        s.msg[0] = s.key[0] = 0;
        pid_t p = fork();
        if (p == 0) {
            set_stderr(kMaxSlots - 1, scratch);
            for (auto& r : ranges)
                for (uint64_t i = r[1]; i < r[2]; ++i)
                    if (!run_one(s, r[0], i)) _exit(10);
            _exit(0);
        }
        uint64_t t0 = now_ms();
        int st = 0;
        for (;;) {
            pid_t r = waitpid(p, &st, WNOHANG);
            if (r == p) break;
            if (now_ms() - t0 > uint64_t(secs) * 1000) {
                kill(p, SIGKILL);
                waitpid(p, &st, 0);
                msg = "did not terminate within " + std::to_string(secs) + " s when run alone";
                return 2;
            }
            usleep(1000);
        }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return 0;
        if (uint64_t(s.phase) != ph || uint64_t(s.cur) != idx) return 0; // some other case: not this one
        if (s.failed) msg = s.msg;
        else msg = crash_text(st, kMaxSlots - 1);
        return 1;
    }

    std::string crash_text(int st, int slot)
    {
        std::string m = WIFSIGNALED(st) ? std::string("crashed with signal ") + std::to_string(WTERMSIG(st)) + " (" + strsignal(WTERMSIG(st)) + ")"
                                        : "process ended with status " + std::to_string(WEXITSTATUS(st));
        std::ifstream f(scratch + "/stderr." + std::to_string(slot));
        std::string l;
        int n = 0;
        while (std::getline(f, l) && n < 12)
            if (l.find("ERROR") != std::string::npos || l.find("runtime error") != std::string::npos || l.find("    #") == 0
                || l.find("terminate") != std::string::npos || l.find("what()") != std::string::npos || l.find("ssert") != std::string::npos) {
                m += "\n  " + l.substr(0, 300);
                ++n;
            }
        return m;
    }

    std::string case_key(const Cand& c) { return phases[c.ph].name + ":" + (c.key.empty() ? describe_key(c.ph, c.idx) : c.key); }
    std::string describe_key(uint64_t ph, uint64_t i)
    {
        std::string d = describe(ph, i), r;
        for (char c : d) r += (c == ' ' || c == '\n') ? '_' : c;
        return r.substr(0, 300);
    }

    unsigned alone_secs(uint64_t ph) { return std::max(100u, phases[ph].case_secs * 2); }

    bool confirm(Cand& c)
    {
        if (c.hang) {
            c.hist = { { c.ph, c.idx, c.idx + 1 } };
            return true;
        }
        unsigned secs = alone_secs(c.ph);
        std::vector<std::vector<std::array<uint64_t, 3>>> tries;
        tries.push_back({ { c.ph, c.idx, c.idx + 1 } });
        for (uint64_t back : { 1, 16, 256 })
            if (c.idx >= back) tries.push_back({ { c.ph, c.idx - back, c.idx + 1 } });
        auto full = c.hist;
        if (!full.empty()) {
            full.back()[2] = c.idx + 1;
            tries.push_back(full);
        }
        for (auto& t : tries) {
            std::string m1, m2;
            if (rerun(t, t.size() > 1 || t[0][2] - t[0][1] > 1 ? secs * 6 : secs, m1, c.ph, c.idx) == 0) continue;
            if (rerun(t, t.size() > 1 || t[0][2] - t[0][1] > 1 ? secs * 6 : secs, m2, c.ph, c.idx) == 0) continue;
            c.hist = t;
            c.msg = m1;
            return true;
        }
        return false;
    }

    int explore()
    {
        std::vector<pid_t> pid(workers, -1);
        auto spawn = [&](int k, bool resume) {
            fflush(stdout);
            pid_t p = fork();
            if (p == 0) worker(k, resume);
            pid[k] = p;
        };
        uint64_t t0 = now_ms();
        for (int k = 0; k < workers; ++k) spawn(k, false);
        std::vector<Cand> viol;
        std::vector<std::string> seen_known;
        uint64_t known_hits = 0;
        int unconfirmed = 0;
        bool capped = false;
        std::set<std::string> known_seen;
        auto handle = [&](Cand c, int k) {
            std::string key = case_key(c);
            for (auto& kn : known)
                if (kn.key == key) {
                    kn.seen = true;
                    ++known_hits;
                    g->cases.fetch_add(1);
                    g->done[c.ph].fetch_add(1);
                    spawn(k, true);
                    return;
                }
            g->stop = 1;
            viol.push_back(c);
        };
        for (;;) {
            bool alive = false;
            for (int k = 0; k < workers; ++k) {
                if (pid[k] < 0) continue;
                int st;
                pid_t r = waitpid(pid[k], &st, WNOHANG);
                Slot& s = g->slots[k];
                if (r == pid[k]) {
                    pid[k] = -1;
                    if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
                    Cand c { s.phase, s.cur, "", "", "", {}, false };
                    for (uint64_t i = 0; i < s.nhist; ++i) c.hist.push_back({ s.hist[i].phase, s.hist[i].lo, s.hist[i].hi });
                    if (s.failed) {
                        c.msg = s.msg;
                        c.key = s.key;
                    }
                    else c.msg = crash_text(st, k);
                    if (!g->stop || viol.empty()) handle(c, k);
                    if (pid[k] >= 0) alive = true;
                    continue;
                }
                alive = true;
                uint64_t st_ms = s.started_ms;
                if (st_ms && now_ms() > st_ms && now_ms() - st_ms > uint64_t(phases[s.phase].case_secs) * 1000) {
                    kill(pid[k], SIGKILL);
                    waitpid(pid[k], &st, 0);
                    pid[k] = -1;
                    if (g->stop && !viol.empty()) continue; // there is something to report; do not wait for the others
                    Cand c { s.phase, s.cur, "did not terminate", "", "", {}, true };
                    std::string m;
                    if (const int how = rerun({ { c.ph, c.idx, c.idx + 1 } }, alone_secs(c.ph), m, c.ph, c.idx)) {
                        c.msg = m;
                        c.hang = how == 2;
                        handle(c, k);
                    }
                    else spawn(k, true); // merely slow under load; it has been run alone and passed
                    if (pid[k] >= 0) alive = true;
                }
            }
            if (!alive) break;
            if (deadline > 0 && !g->stop && (now_ms() - t0) / 1000.0 > deadline) {
                g->stop = 1;
                capped = true;
            }
            usleep(2000);
        }
        // Confirm the candidate(s) in fresh processes.
        int rc = 0;
        std::string vfile;
        bool reported = false;
        g->stop = 0;
        for (auto& c : viol) {
            std::string first = c.msg;
            if (!confirm(c)) {
                fprintf(stderr, "UNCONFIRMED %s %s: %s\n", id.c_str(), case_key(c).c_str(), first.c_str());
                ++unconfirmed;
                continue;
            }
            vfile = replay_dir + "/" + id + "-" + g_variant + ".json";
            std::ofstream f(vfile);
            f << "{\n \"property\": " << jesc(id) << ",\n \"variant\": " << jesc(g_variant) << ",\n \"tier\": " << jesc(g_tier)
              << ",\n \"phase\": " << jesc(phases[c.ph].name) << ",\n \"index\": " << c.idx << ",\n \"key\": " << jesc(case_key(c))
              << ",\n \"case\": " << jesc(describe(c.ph, c.idx)) << ",\n \"message\": " << jesc(c.msg) << ",\n \"spec\": \"";
            for (size_t i = 0; i < c.hist.size(); ++i)
                f << (i ? "," : "") << phases[c.hist[i][0]].name << "@" << c.hist[i][1] << "-" << c.hist[i][2];
            f << "\"\n}\n";
            printf("case [%s] %s #%llu: %s\n  %s\n", g_variant.c_str(), phases[c.ph].name.c_str(), (unsigned long long)c.idx,
                   describe(c.ph, c.idx).substr(0, 1000).c_str(), c.msg.substr(0, 3000).c_str());
            printf("VIOLATION property=%s replay=%s\n", id.c_str(), vfile.c_str());
            reported = true;
            rc = 1;
            break;
        }
        if (!reported && unconfirmed) rc = 3;
        for (auto& kn : known)
            if (kn.seen) printf("KNOWN-FINDING: property=%s %s\n", id.c_str(), kn.what.c_str());
        write_out(t0, capped, viol.size(), known_hits, rc);
        fflush(stdout);
        return rc;
    }

    void write_out(uint64_t t0, bool capped, size_t nviol, uint64_t known_hits, int rc)
    {
        std::ofstream f(out);
        bool full = !capped && nviol == 0;
        f << "{\"variant\":" << jesc(g_variant) << ",\"cases\":" << g->cases << ",\"states\":" << g->states << ",\"transitions\":" << g->transitions
          << ",\"validated\":" << g->validated << ",\"outcomes\":" << g->outcomes << ",\"saturated\":" << g->saturated
          << ",\"known_hits\":" << known_hits << ",\"violations\":" << (rc == 1 ? 1 : 0) << ",\"wall_s\":" << (now_ms() - t0) / 1000.0;
        std::string ph = "[", caps = "[", samples = "[";
        bool fp = true, fc = true, fs = true;
        for (size_t i = 0; i < phases.size(); ++i) {
            bool c = g->done[i] < phases[i].count;
            if (c) full = false;
            ph += std::string(fp ? "" : ",") + "{\"phase\":" + jesc(phases[i].name) + ",\"space\":" + std::to_string(phases[i].count)
                + ",\"explored\":" + std::to_string(g->done[i]) + "}";
            fp = false;
            if (c) {
                caps += std::string(fc ? "" : ",") + jesc(phases[i].name + ": " + std::to_string(g->done[i]) + " of " + std::to_string(phases[i].count));
                fc = false;
            }
            if (phases[i].count) {
                samples += std::string(fs ? "" : ",") + jesc(phases[i].name + ": " + describe(i, phases[i].count / 2).substr(0, 300));
                fs = false;
            }
        }
        f << ",\"exhaustive\":" << (full ? "true" : "false") << ",\"phases\":" << ph << "],\"caps\":" << caps << "],\"samples\":" << samples
          << "],\"notes\":[";
        for (size_t i = 0; i < notes.size(); ++i) f << (i ? "," : "") << jesc(notes[i]);
        f << "]}\n";
    }

    int replay_main(const std::string& spec)
    {
        // phase@lo-hi[,phase@lo-hi...]
        std::stringstream ss(spec);
        std::string t;
        Slot& s = g->slots[0];
        while (std::getline(ss, t, ',')) {
            auto at = t.rfind('@');
            auto dash = t.rfind('-');
            std::string pn = t.substr(0, at);
            uint64_t lo = strtoull(t.c_str() + at + 1, nullptr, 10), hi = strtoull(t.c_str() + dash + 1, nullptr, 10);
            bool found = false;
            for (size_t i = 0; i < phases.size(); ++i)
                if (phases[i].name == pn) {
                    found = true;
                    for (uint64_t k = lo; k < hi; ++k)
                        if (!run_one(s, i, k)) {
                            printf("reproduced: %s #%llu: %s\n  %s\n", pn.c_str(), (unsigned long long)k, describe(i, k).c_str(), s.msg);
                            return 1;
                        }
                }
            if (!found) {
                printf("no phase %s\n", pn.c_str());
                return 3;
            }
        }
        printf("not reproduced\n");
        return 0;
    }
};
} // namespace mc

#define MC_MAIN(setup_fn)                                          \
    int main(int argc, char** argv)                                \
    {                                                              \
        static mc::Engine e;                                       \
        return e.main(argc, argv, [](mc::Engine& x) { setup_fn(x); }); \
    }
