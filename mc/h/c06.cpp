// C06: no read outside the text, no crash, no exception, termination -- for any bytes.
// The text is placed flush against an inaccessible page, once before and once after it.
#include "dims.hpp"
#include "papi.hpp"
#include "spaces.hpp"
#include <deque>
using S = std::string;

struct Guard
{
    static constexpr size_t N = 1024 * 4096;
    char* base;
    Guard()
    {
        base = static_cast<char*>(mmap(nullptr, N + 2 * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
        mprotect(base + 4096, N, PROT_READ | PROT_WRITE);
    }
    char* first() { return base + 4096; }
    char* last() { return base + 4096 + N; }
};
static Guard& guard()
{
    static Guard gd;
    return gd;
}

template <typename V>
static void run(const V& v, bool want_s, bool want_c, const S& t)
{
    try {
        bool s = P(v).has_value(), c = PC(v).has_value();
        mc::step(2);
        // reading past the end could also show as a different verdict
        if (s != want_s || c != want_c) mc::fail("verdict differs at a page boundary for " + mc::show(t));
    }
    catch (const mc::Violation&) {
        throw;
    }
    catch (const std::exception& e) {
        mc::fail(S("exception ") + e.what() + " for " + mc::show(t));
    }
}

static void one(const S& t)
{
    auto& gd = guard();
    mc::state(t);
    bool s = ref::parse(t).has_value(), c = ref::parse(t, true).has_value();
    mc::outcome(uint64_t(s * 2 + c + 1));
#ifdef MC_ASAN
    { // exact-size heap buffers under the address sanitizer
        std::vector<char> v(t.begin(), t.end());
        v.shrink_to_fit();
        run(v, s, c, t);
        run(std::deque<char>(t.begin(), t.end()), s, c, t);
        run(t, s, c, t);
    }
#endif
    char* p = gd.last() - t.size();
    memcpy(p, t.data(), t.size());
    run(std::string_view(p, t.size()), s, c, t);
    memcpy(gd.first(), t.data(), t.size());
    run(std::string_view(gd.first(), t.size()), s, c, t);
    mc::validated();
}

static void setup(mc::Engine& e)
{
    const bool th = mc::thorough();
    auto add = [&](const sp::Space& s) { e.add(s.name, s.count, [s](uint64_t i) { one(s.text(i)); }, [s](uint64_t i) { return mc::show(s.text(i)); }); };
#ifdef MC_ASAN
    add(sp::edits("edits", sp::docs()));
    add(sp::edits("c-edits", sp::jsonc_docs()));
    add(sp::words("tokens", sp::tokens(), th ? 5 : 4));
    add(sp::words("c-tokens", sp::ctokens(), th ? 5 : 4));
    add(sp::words("mixed-chars-array", sp::chars(sp::S0("[]{},:\"a\\u01-.enft/ \n\0\x01", 24)), 3, "[", ""));
    add(sp::string_bytes("string-bytes", th ? 70 : 20, false));
    add(sp::escape_at("escape-at", th ? 40 : 20, false));
    add(sp::sizes("sizes", th ? 300 : 40));
#else
    for (auto& s : sp::core(false)) {
        if (!th && (s.name == "tokens" || s.name == "mixed-chars" || s.name == "string-chars" || s.name == "edits2" || s.name == "number-chars")) continue;
        add(s);
    }
    for (auto& s : sp::comments(false)) {
        if (!th && (s.name == "c-chars" || s.name == "c-tokens" || s.name == "c-chars-line" || s.name == "c-edits2")) continue;
        add(s);
    }
    // unterminated texts: no closing symbol follows
    add(sp::words("open-array", sp::chars(sp::S0("[]{},:\"a\\u01-.enft/ \n\0\x01*", 25)), th ? 5 : 4, "[", ""));
    add(sp::words("open-object", sp::chars(sp::S0("[]{},:\"a\\u01-.enft/ \n\0\x01*", 25)), th ? 4 : 3, "{\"k\":", ""));
    add(sp::words("open-string", sp::chars(sp::S0("\\u\"0dD8n/x\x1f", 11)), th ? 6 : 5, "[\"", ""));
    add(sp::words("open-number", sp::chars("019-+.eE"), th ? 7 : 6, "[", ""));
    add(sp::words("open-comment", sp::chars("/*\n x"), 7, "[1/", ""));
    // every prefix of long documents
    static std::vector<S> longdocs;
    for (auto& d : sp::docs()) longdocs.push_back(d);
    for (auto& d : sp::jsonc_docs()) longdocs.push_back(d);
    for (int n : { 3, 8, 15, 16, 17, 31, 32, 33, 64, 100 }) {
        longdocs.push_back("[\"" + S(n, 'a') + "\\u00e9" + S(n, 'b') + "\\ud83d\\ude00\"," + S(n, '1') + "." + S(n, '2') + "e-" + S(n, '3') + ",true,false,null]");
        longdocs.push_back("{\"" + S(n, 'k') + "\" /*" + S(n, 'c') + "*/ : // " + S(n, 'd') + "\n[" + S(n, ' ') + "{}]}");
    }
    static std::vector<std::pair<size_t, size_t>> pre;
    for (size_t k = 0; k < longdocs.size(); ++k)
        for (size_t n = 0; n <= longdocs[k].size(); ++n) pre.push_back({ k, n });
    e.add("prefixes", pre.size(), [](uint64_t i) { one(longdocs[pre[i].first].substr(0, pre[i].second)); },
          [](uint64_t i) { return mc::show(longdocs[pre[i].first].substr(0, pre[i].second)); });
    // every suffix
    e.add("suffixes", pre.size(), [](uint64_t i) { one(longdocs[pre[i].first].substr(pre[i].second)); },
          [](uint64_t i) { return mc::show(longdocs[pre[i].first].substr(pre[i].second)); });
    // runs of one byte of every length (no byte value is special enough to loop or overflow)
    e.add("byte-runs", 256ull * (th ? 2000 : 300), [](uint64_t i) { one("[\"" + S(i / 256, char(i % 256))); }, [](uint64_t i) { return "run of byte " + std::to_string(i % 256) + " length " + std::to_string(i / 256); });
    e.add("byte-runs-bare", 256ull * 300, [](uint64_t i) { one(S(i / 256, char(i % 256))); }, [](uint64_t i) { return "run of byte " + std::to_string(i % 256) + " length " + std::to_string(i / 256); });
#endif
    dm::Reach r = dm::reach(th);
    if (!th) r = { 140, 1u << 13, 270, 1u << 17, 70, 1u << 9 };
    dm::add_dims(e, "every-size", r, [](const dm::Dim& d, size_t n) {
        dm::near_texts(dm::text_of(d, n), [](const S& t) {
            if (t.size() < Guard::N) one(t);
        });
    });
}
MC_MAIN(setup)
