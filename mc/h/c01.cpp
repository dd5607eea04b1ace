// C01: strict parsing accepts exactly the well-formed documents (and yields the model's tree).
#include "dims.hpp"
#include "spaces.hpp"

static void setup(mc::Engine& e)
{
    for (auto& s : sp::core(mc::thorough())) {
        e.add(
            s.name, s.count,
            [s](uint64_t i) {
                std::string t = s.text(i);
                auto want = ref::parse(t);
                auto got = json::parse(t);
                ref::check_parse(got, want, t);
                mc::state(t);
                mc::outcome(want ? ref::dump(*want) : "reject");
            },
            [s](uint64_t i) { return mc::show(s.text(i)); });
    }
    // comment-tolerant constructs are rejected by the strict parser
    for (auto& s : sp::comments(false)) {
        if (s.name != "c-edits" && s.name != "c-tokens" && s.name != "c-chars-after" && s.name != "c-bytes-trailing-comma-o" && s.name != "c-lengths"
            && s.name != "c-tokens-after" && s.name != "c-tokens-object" && s.name != "c-tokens-array")
            continue;
        e.add(
            "strict-" + s.name, s.count,
            [s](uint64_t i) {
                std::string t = s.text(i);
                ref::check_parse(json::parse(t), ref::parse(t), t);
                mc::state(t);
            },
            [s](uint64_t i) { return mc::show(s.text(i)); });
    }
    dm::add_dims(e, "every-size", dm::reach(mc::thorough()), [](const dm::Dim& d, size_t n) {
        dm::near_texts(dm::text_of(d, n), [](const std::string& t) { ref::check_parse(json::parse(t), ref::parse(t), t); });
    });
}
MC_MAIN(setup)
