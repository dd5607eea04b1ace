// C08: pretty printing.
#include "trees.hpp"
#include "build.hpp"
#include "dims.hpp"
#include <iomanip>
#include <iostream>
#include <locale>
#include <sstream>
using ref::Node;

// The compact text with every whitespace outside string literals removed.
static std::string strip(const std::string& t)
{
    std::string r;
    bool in = false;
    for (size_t i = 0; i < t.size(); ++i) {
        if (in) {
            r += t[i];
            if (t[i] == '\\') r += t[++i];
            else if (t[i] == '"') in = false;
        }
        else if (t[i] == '"') {
            in = true;
            r += t[i];
        }
        else if (t[i] != ' ' && t[i] != '\n' && t[i] != '\t' && t[i] != '\r') r += t[i];
    }
    return r;
}

static void check_width(const json::value& v, const Node& n, size_t w)
{
    auto want = ref::format(n, w);
    mc::step(3);
    mc::validated();
    mc::state(want);
    auto got = v.format(w);
    if (got != want) mc::fail("format(" + std::to_string(w) + ") is " + mc::show(got) + ", expected " + mc::show(want));
    if (v.dumps(w) != want) mc::fail("dumps(" + std::to_string(w) + ") differs: " + mc::show(v.dumps(w)));
    if (strip(got) != v.to_string()) mc::fail("more than whitespace was added: " + mc::show(got));
    if (n.k == ref::Arr) {
        auto& a = v.as_array();
        if (a.format(w) != want || a.dumps(w) != want) mc::fail("array::format(" + std::to_string(w) + ") differs");
    }
    if (n.k == ref::Obj) {
        auto& o = v.as_object();
        if (o.format(w) != want || o.dumps(w) != want) mc::fail("object::format(" + std::to_string(w) + ") differs");
    }
    if (n.k == ref::Arr || n.k == ref::Obj) {
        auto r = json::parse(got);
        if (!r || *r != v) mc::fail("does not parse back equal: " + mc::show(got));
        if (r->format(w) != got) mc::fail("second round differs: " + mc::show(got));
    }
    mc::outcome(got);
}
static void check_stream(const json::value& v, const Node& n)
{
    auto want = ref::format(n, 4);
    mc::step(5);
    mc::validated();
    if (v.format() != want) mc::fail("format() is " + mc::show(v.format()) + ", expected " + mc::show(want));
    auto put = [&](auto& x, const char* what) {
        std::ostringstream s;
        s << x;
        if (s.str() != want) mc::fail(std::string("streaming a ") + what + " printed " + mc::show(s.str()));
        std::ostringstream f;
        f << std::hex << std::showbase << std::boolalpha << std::setprecision(2) << std::scientific << std::uppercase << "<" << x << x << ">";
        if (f.str() != "<" + want + want + ">") mc::fail(std::string("stream flags or position change the text of a ") + what + ": " + mc::show(f.str()));
    };
    put(v, "value");
    if (n.k == ref::Arr) {
        put(v.as_array(), "array");
        if (v.as_array().format() != want) mc::fail("array::format() differs");
    }
    if (n.k == ref::Obj) {
        put(v.as_object(), "object");
        if (v.as_object().format() != want) mc::fail("object::format() differs");
    }
}

static const size_t kW[] = { 0, 1, 2, 3, 4, 5, 7, 8, 9, 16, 33, 100 };

static void setup(mc::Engine& e)
{
    const bool th = mc::thorough();
    static auto all = tr::flat(tr::trees(th ? 5 : 4, tr::more_leaves(), { "", "a: ,", "\"\n\x01" }));
    static auto big = tr::flat(tr::trees(th ? 6 : 5, { ref::null(), ref::str(" [\n{") }, { "a", "b" }));
    e.add("trees-widths", all.size() * 12, [](uint64_t i) { check_width(ref::build(all[i / 12]), all[i / 12], kW[i % 12]); },
          [](uint64_t i) { return "width " + std::to_string(kW[i % 12]) + " " + ref::dump(all[i / 12]); });
    e.add("bigger-trees", big.size() * 4, [](uint64_t i) { check_width(ref::build(big[i / 4]), big[i / 4], i % 4 == 3 ? 8 : i % 4); },
          [](uint64_t i) { return ref::dump(big[i / 4]); });
    e.add("streams", all.size(), [](uint64_t i) { check_stream(bd::by(i % bd::kRoutes, all[i]), all[i]); }, [](uint64_t i) { return ref::dump(all[i]); });
    e.add("every-width", 300 * 4,
          [](uint64_t i) {
              static const std::vector<Node> n = { ref::arr({ ref::arr({ ref::obj({ { "a", ref::arr({ ref::null(), ref::obj() }) }, { "b", ref::arr() } }) }) }), ref::obj({ { "x", ref::obj({ { "y", ref::str("z") } }) } }),
                                                   ref::arr(), ref::obj() };
              check_width(ref::build(n[i % 4]), n[i % 4], i / 4);
          },
          [](uint64_t i) { return "width " + std::to_string(i / 4); });
    static const unsigned D = th ? 600 : 200;
    e.add("depth", D * 4 * 4,
          [](uint64_t i) {
              mc::Dec d(i);
              unsigned kind = d(4), w = std::array<unsigned, 4> { 0, 1, 3, 4 }[d(4)], n = d(D);
              Node x = kind & 1 ? ref::obj() : ref::num("1");
              for (unsigned j = 0; j < n; ++j) x = (kind & 2) && j % 2 ? ref::obj({ { "k", x } }) : j % 3 == 2 ? ref::arr({ x, ref::null() }) : ref::arr({ x });
              check_width(ref::build(x), x, w);
              if (w == 4) check_stream(ref::build(x), x);
          },
          [](uint64_t i) { return "depth case " + std::to_string(i); }, 8);
    static const unsigned W = th ? 4100 : 700;
    e.add("size", W * 3,
          [](uint64_t i) {
              unsigned n = i / 3;
              Node x = ref::arr();
              if (i % 3 == 0) x.a.assign(n, ref::boolean(true));
              else if (i % 3 == 1) {
                  x = ref::obj();
                  for (unsigned j = 0; j < n; ++j) x.o[std::to_string(j)] = ref::arr();
              }
              else x.a = { ref::str(std::string(n, 'x')), ref::obj({ { std::string(n, ' '), ref::str("\t") } }) };
              check_width(ref::build(x), x, 2);
          },
          [](uint64_t i) { return "size case " + std::to_string(i); }, 8);
    dm::add_dims(e, "every-size", dm::reach(th), [](const dm::Dim& d, size_t n) {
        if (d.text) return;
        Node x = d.make(n);
        json::value v = ref::build(x);
        for (size_t w : { 0, 1, 4 }) {
            if (d.deep && n > 300 && w) break;
            check_width(v, x, w);
        }
        if (!d.deep || n <= 300) check_stream(v, x);
    });
    dm::add_sizes(e, "every-large-width", dm::ladder(th ? 4200 : 1100, th ? 1u << 24 : 1u << 20), [](size_t w) {
        for (const Node& n : { ref::arr({ ref::num("1"), ref::obj({ { "k", ref::arr({ ref::null() }) } }) }), ref::obj({ { "x", ref::str("z") } }) }) check_width(ref::build(n), n, w);
    });
}
MC_MAIN(setup)
