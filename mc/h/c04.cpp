// C04: the comment-tolerant parser.
#include "dims.hpp"
#include "spaces.hpp"

static void one(const std::string& t)
{
    auto want = ref::parse(t, true);
    auto got = json::parsec(t);
    ref::check_parse(got, want, t);
    mc::state(t);
    mc::outcome(want ? ref::dump(*want) : "reject");
    if (auto s = json::parse(t)) {
        mc::step();
        if (!got || *got != *s) mc::fail("strict result differs from the comment-tolerant one for " + mc::show(t));
    }
}

static void setup(mc::Engine& e)
{
    for (auto& s : sp::comments(mc::thorough())) e.add(s.name, s.count, [s](uint64_t i) { one(s.text(i)); }, [s](uint64_t i) { return mc::show(s.text(i)); });
    for (auto& s : sp::core(mc::thorough())) {
        if (s.name == "mixed-chars" || s.name == "string-chars" || s.name == "escape-hex") continue;
        e.add(s.name, s.count, [s](uint64_t i) { one(s.text(i)); }, [s](uint64_t i) { return mc::show(s.text(i)); });
    }
    // every subset of gaps of small documents filled with each kind of comment
    static const std::vector<std::vector<std::string>> D = { { "[", "1", ",", "2", "]" },           { "{", "\"a\"", ":", "1", ",", "\"b\"", ":", "[", "]", "}" },
                                                             { "[", "{", "\"k\"", ":", "null", ",", "}", ",", "]" }, { "[", "\"//\"", ",", "\"/*\"", ",", "[", "\"*/\"", "]", "]" },
                                                             { "{", "}" },                            { "[", "]" },
                                                             { "[", ",", "]" },                       { "[", "1", ",", ",", "]" },
                                                             { "{", ",", "}" },                       { "{", "\"a\"", ":", "1", ",", ",", "}" } };
    static const std::vector<std::string> C = { "", "/**/", "//\n", "/*\n*/ ", " // /* \n", "/* // */" };
    uint64_t total = 0;
    std::vector<uint64_t> start;
    for (auto& d : D) {
        start.push_back(total);
        total += mc::ipow(4, unsigned(d.size() + 1)) * 3;
    }
    auto gen = [start](uint64_t i) {
        size_t k = D.size() - 1;
        while (i < start[k]) --k;
        mc::Dec d(i - start[k]);
        unsigned set = d(3);
        std::string t;
        for (size_t g = 0; g <= D[k].size(); ++g) {
            unsigned c = d(4);
            t += c == 0 ? "" : C[(c - 1 + set * 2) % 5 + 1];
            if (g < D[k].size()) t += D[k][g];
        }
        return t;
    };
    e.add("comments-at-gaps", total, [gen](uint64_t i) { one(gen(i)); }, [gen](uint64_t i) { return mc::show(gen(i)); });
    dm::add_dims(e, "every-size", dm::reach(mc::thorough()), [](const dm::Dim& d, size_t n) {
        dm::near_texts(dm::text_of(d, n), [](const std::string& t) { one(t); });
    });
}
MC_MAIN(setup)
