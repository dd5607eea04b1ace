// C22: struct reflection.  The generated source registers the structs; here every combination of key states is tried.
#include "dims.hpp"
#include "refl.hpp"
#include "trees.hpp"
using fam::M;
using ref::Node;
using S = std::string;

// Per type: two right values (first differs from every initial value), wrong ones.
static Node right(int t, int j)
{
    const S d = std::to_string(j + 1);
    switch (t) {
    case 0: return ref::num(d);
    case 1: return ref::str("s" + d);
    case 2: return ref::boolean(j % 2);
    case 3: return ref::num(d + ".5");
    case 4: return ref::arr({ ref::num(d), ref::num("0") });
    case 5: return j % 3 == 2 ? ref::null() : ref::num(d);
    case 6: return ref::obj({ { "m" + d, ref::str(d) } });
    case 7: return j % 4 == 0 ? ref::null() : j % 4 == 1 ? ref::arr({ ref::num(d) }) : j % 4 == 2 ? ref::obj({ { d, ref::null() } }) : ref::str(d);
    case 8: return ref::obj({ { "p", ref::num(d) }, { "q", ref::str("q" + d) } });
    case 9: return ref::arr({ ref::str(d) });
    case 10: return ref::obj({ { d, ref::num(d) } });
    default: return ref::str(j % 3 == 0 ? "red" : j % 3 == 1 ? "green" : "blue");
    }
}
static std::vector<Node> wrongs(int t)
{
    switch (t) {
    case 0: return { ref::str("1"), ref::null(), ref::num("3000000000"), ref::num("1.5"), ref::arr({ ref::num("1") }) };
    case 1: return { ref::num("1"), ref::null(), ref::arr(), ref::obj() };
    case 2: return { ref::num("1"), ref::null(), ref::str("true") };
    case 3: return { ref::str("1.5"), ref::null(), ref::boolean(true) };
    case 4: return { ref::arr({ ref::num("1"), ref::str("2") }), ref::null(), ref::obj(), ref::num("1") };
    case 5: return { ref::str("x"), ref::num("1.5"), ref::arr() };
    case 6: return { ref::obj({ { "a", ref::num("1") } }), ref::null(), ref::arr() };
    case 7: return {};
    case 8: return { ref::obj(), ref::null(), ref::obj({ { "p", ref::str("1") } }), ref::obj({ { "p", ref::num("1") }, { "q", ref::null() } }), ref::arr() };
    case 9: return { ref::obj(), ref::null(), ref::str("") };
    case 10: return { ref::arr(), ref::null(), ref::str("") };
    default: return { ref::str("purple"), ref::null(), ref::boolean(true) };
    }
}
static bool fits(int t, const Node& n)
{
    bool r = false;
    rf::with_type(t, [&](auto* p) { r = M<std::decay_t<decltype(*p)>>::fits(n); });
    return r;
}
static Node get(int t, const void* p)
{
    Node r;
    rf::with_type(t, [&](auto* x) { r = M<std::decay_t<decltype(*x)>>::json(*static_cast<std::decay_t<decltype(x)>>(const_cast<void*>(p))); });
    return r;
}
static void set(int t, void* p, const Node& n)
{
    rf::with_type(t, [&](auto* x) { *static_cast<decltype(x)>(p) = M<std::decay_t<decltype(*x)>>::of(n); });
}
static std::vector<Node> contents(rf::Case& c, void* s)
{
    std::vector<Node> r;
    auto ps = c.fields(s);
    for (size_t j = 0; j < ps.size(); ++j) r.push_back(get(c.f[j].type, ps[j]));
    return r;
}
static S show(const std::vector<Node>& v)
{
    S r = "(";
    for (auto& n : v) r += ref::dump(n) + "; ";
    return r + ")";
}

// one input: per field the node or nothing
struct In
{
    Node doc;                          // the whole value (usually an object)
    std::vector<const Node*> member;   // per field
};
static void expect_fields(rf::Case& c, void* s, const In& in, const std::vector<Node>& before, const char* how)
{
    std::vector<Node> want;
    for (size_t j = 0; j < c.f.size(); ++j) {
        // what the field's type makes of the node
        if (!in.member[j]) want.push_back(before[j]);
        else
            rf::with_type(c.f[j].type, [&](auto* p) {
                using T = std::decay_t<decltype(*p)>;
                want.push_back(M<T>::json(M<T>::of(*in.member[j])));
            });
    }
    auto got = contents(c, s);
    for (size_t j = 0; j < want.size(); ++j)
        if (got[j] != want[j]) mc::fail(c.name + ": " + how + " of " + ref::dump(in.doc) + " gives field " + c.f[j].key + " = " + ref::dump(got[j]) + ", expected " + ref::dump(want[j]));
}
static void load(rf::Case& c, const Node& doc, bool deep)
{
    mc::step();
    mc::state(ref::dump(doc), mc::hash(c.name));
    In in;
    in.doc = doc;
    in.member.resize(c.f.size());
    bool ok = true;
    S bad;
    for (size_t j = 0; j < c.f.size(); ++j) {
        if (doc.k == ref::Obj) {
            auto it = doc.o.find(c.f[j].key);
            if (it != doc.o.end()) in.member[j] = &it->second;
        }
        bool fine = in.member[j] ? fits(c.f[j].type, *in.member[j]) : c.f[j].opt;
        if (!fine && ok) {
            ok = false;
            bad = c.f[j].key;
        }
    }
    const json::value v = ref::build(doc);
    auto ctx = [&](const S& what) { return c.name + ": " + what + " for " + ref::dump(doc); };
    for (int fresh = 0; fresh < 2; ++fresh) {
        auto s = c.make();
        if (!fresh) { // loading over other content
            auto ps = c.fields(s.get());
            for (size_t j = 0; j < ps.size(); ++j) set(c.f[j].type, ps[j], right(c.f[j].type, int(j) + 31));
        }
        const auto before = contents(c, s.get());
        // check only
        for (int e = 0; e < 2; ++e) {
            S err = "@";
            bool r = c.check(s.get(), v, e ? &err : nullptr);
            mc::check(r == ok, [&] { return ctx(S("check_json gives ") + (r ? "true" : "false")); });
            if (e && !ok) mc::check(err == bad, [&] { return ctx("check_json names key " + mc::show(err) + ", expected " + mc::show(bad)); });
        }
        mc::check(contents(c, s.get()) == before, [&] { return ctx("check_json changed the struct"); });
        for (int e = 0; e < 2; ++e) {
            auto s2 = c.make();
            auto ps = c.fields(s2.get());
            for (size_t j = 0; j < ps.size(); ++j) set(c.f[j].type, ps[j], right(c.f[j].type, int(j) + 31));
            void* t = fresh ? s.get() : s2.get();
            const auto b = contents(c, t);
            S err = "@";
            bool r = c.from(t, v, e ? &err : nullptr);
            mc::check(r == ok, [&] { return ctx(S("from_json gives ") + (r ? "true" : "false")); });
            if (!ok && e) mc::check(err == bad, [&] { return ctx("from_json names key " + mc::show(err) + ", expected " + mc::show(bad)); });
            if (ok) expect_fields(c, t, in, b, "from_json");
        }
    }
    mc::check(ref::readout(v) == doc, [&] { return ctx("loading changed the value"); });
    mc::check(c.is(v) == ok, [&] { return ctx(S("is<> gives ") + (ok ? "false" : "true")); });
    std::vector<Node> init = contents(c, c.make().get());
    for (int r = 0; r < (deep ? c.reads() : 1); ++r) {
        if (r == 7 && doc.k == ref::Null) continue; // an empty optional
        bool threw = false;
        std::shared_ptr<void> s;
        try {
            s = c.read(v, r);
        }
        catch (const std::exception&) {
            threw = true;
        }
        mc::check(threw == !ok, [&] { return ctx(S(rf::kReads[r]) + (threw ? " throws" : " does not throw")); });
        if (ok) expect_fields(c, s.get(), in, init, rf::kReads[r]);
        mc::check(c.reads_is(v, r) == ok, [&] { return ctx(S("is<> around ") + rf::kReads[r]); });
    }
    mc::check(ref::readout(v) == doc, [&] { return ctx("converting changed the value"); });
    mc::validated();
}
static void store(rf::Case& c, int salt)
{
    auto s = c.make();
    auto ps = c.fields(s.get());
    Node want = ref::obj();
    for (size_t j = 0; j < ps.size(); ++j) {
        if (salt >= 0) set(c.f[j].type, ps[j], right(c.f[j].type, int(j) + salt));
        want.o[c.f[j].key] = get(c.f[j].type, ps[j]);
    }
    const auto before = contents(c, s.get());
    for (int r = 0; r < c.writes(); ++r) {
        mc::step();
        auto got = ref::readout(c.write(s.get(), r));
        if (got != want) mc::fail(c.name + ": " + rf::kWrites[r] + " gives " + ref::dump(got) + ", expected " + ref::dump(want));
        mc::check(contents(c, s.get()) == before, [&] { return c.name + ": " + rf::kWrites[r] + " changed the struct"; });
    }
    load(c, want, true);
    // the round trip through text
    auto text = c.write(s.get(), 0).to_string();
    auto back = json::parse(text);
    mc::check(bool(back), [&] { return c.name + ": does not reparse"; });
    auto s2 = c.make();
    mc::check(c.from(s2.get(), *back, nullptr) && contents(c, s2.get()) == before, [&] { return c.name + ": text round trip loses " + text; });
    mc::validated();
}

// ------------------------------------------------------------------ a template struct over the type families
template <typename T>
struct F
{
    int before = -1;
    T f {};
    S after = "x";
    MEO_JSONIZATION(before, f, MEO_OPT after)
};
template <typename T>
static void field_type(const Node& n)
{
    mc::step();
    const bool ok = M<T>::fits(n);
    const Node doc = ref::obj({ { "before", ref::num("7") }, { "f", n }, { "after", ref::str("z") } });
    const json::value v = ref::build(doc);
    F<T> s;
    S err = "@";
    auto ctx = [&](const char* w) { return "field of type " + M<T>::name() + ": " + w + " for " + ref::dump(doc); };
    mc::check(s.check_json(v, err) == ok && (ok || err == "f"), [&] { return ctx("check_json"); });
    err = "@";
    mc::check(s.from_json(v, err) == ok && (ok || err == "f"), [&] { return ctx("from_json"); });
    mc::check(v.is<F<T>>() == ok, [&] { return ctx("is"); });
    mc::check(ref::readout(v) == doc, [&] { return ctx("source changed"); });
    if (ok) {
        const T model = M<T>::of(n);
        mc::check(s.before == 7 && s.after == "z" && M<T>::eq(s.f, model), [&] { return ctx("loaded content"); });
        F<T> r = v.as<F<T>>();
        mc::check(r.before == 7 && r.after == "z" && M<T>::eq(r.f, model), [&] { return ctx("as"); });
        r.before = 9;
        r.after = "w";
        const Node want = ref::obj({ { "before", ref::num("9") }, { "f", M<T>::json(r.f) }, { "after", ref::str("w") } });
        mc::check(ref::readout(r.to_json()) == want, [&] { return ctx("to_json"); });
        const F<T>& cr = r;
        mc::check(ref::readout(json::value(cr)) == want, [&] { return ctx("value(const&)"); });
        mc::check(r.before == 9 && r.after == "w" && M<T>::eq(r.f, model), [&] { return ctx("to_json changed the struct"); });
        mc::outcome(ref::dump(want));
    }
    else {
        try {
            (void)v.as<F<T>>();
        }
        catch (const std::exception&) {
            return;
        }
        mc::fail(ctx("as does not throw"));
    }
}

static void setup(mc::Engine& e)
{
    rf::register_all();
    static auto& R = rf::registry();
    // the whole space of one struct is one case list: (struct, sub-case)
    struct Job
    {
        int s, kind, j, k;
    };
    static std::vector<Job> jobs;
    for (int s = 0; s < int(R.size()); ++s) {
        auto& c = *R[s];
        const int n = int(c.f.size());
        for (int salt = -1; salt < 3; ++salt) jobs.push_back({ s, 0, salt, 0 });
        jobs.push_back({ s, 1, 0, 0 }); // non-objects, empty object, extra keys
        if (n <= 4) jobs.push_back({ s, 2, 0, 0 }); // every combination of states
        for (int j = 0; j < n; ++j) jobs.push_back({ s, 3, j, 0 });
    }
    e.add("structs", jobs.size(),
          [](uint64_t i) {
              auto [s, kind, j, k] = jobs[i];
              auto& c = *R[s];
              const int n = int(c.f.size());
              auto base = [&] {
                  Node d = ref::obj();
                  for (int x = 0; x < n; ++x) d.o[c.f[x].key] = right(c.f[x].type, x);
                  return d;
              };
              if (kind == 0) store(c, j);
              else if (kind == 1) {
                  for (auto& d : { ref::null(), ref::boolean(true), ref::num("1"), ref::str(""), ref::str(c.f[0].key), ref::arr(), ref::arr({ base() }), ref::obj() }) load(c, d, true);
                  for (auto& x : { S("extra"), S(""), S("f"), c.f[0].key + "x", S("~~") }) {
                      Node d = base();
                      bool used = false;
                      for (auto& f : c.f) used |= f.key == x;
                      if (used) continue;
                      d.o[x] = ref::arr({ ref::null() });
                      load(c, d, true);
                      d = ref::obj({ { x, ref::num("1") } });
                      load(c, d, true);
                  }
              }
              else if (kind == 2) {
                  std::vector<std::vector<std::optional<Node>>> st(n);
                  uint64_t total = 1;
                  for (int x = 0; x < n; ++x) {
                      st[x].push_back(right(c.f[x].type, x));
                      st[x].push_back(std::nullopt);
                      auto w = wrongs(c.f[x].type);
                      for (size_t q = 0; q < w.size() && (n < 3 || q < 2); ++q) st[x].push_back(w[q]);
                      total *= st[x].size();
                  }
                  for (uint64_t q = 0; q < total; ++q) {
                      mc::Dec dec(q);
                      Node d = ref::obj();
                      for (int x = 0; x < n; ++x) {
                          auto& o = st[x][dec(st[x].size())];
                          if (o) d.o[c.f[x].key] = *o;
                      }
                      load(c, d, n < 3);
                  }
              }
              else {
                  // singles: every state; pairs: absent / wrong of j and of every later field
                  auto put = [&](Node& d, int x, int state) {
                      auto w = wrongs(c.f[x].type);
                      if (state == 0) d.o.erase(c.f[x].key);
                      else if (state - 1 < int(w.size())) d.o[c.f[x].key] = w[state - 1];
                      else return false;
                      return true;
                  };
                  for (int a = 0; a < 6; ++a) {
                      Node d = base();
                      if (!put(d, j, a)) continue;
                      load(c, d, true);
                      if (a > 1) continue;
                      for (int y = j + 1; y < n; ++y)
                          for (int b = 0; b < 2; ++b) {
                              if (!mc::thorough() && n > 12 && y - j > 2 && (y * 7 + j + b) % 5) continue;
                              Node dd = d;
                              if (put(dd, y, b)) load(c, dd, false);
                          }
                  }
                  // everything absent except j, everything wrong except j, everything absent up to j
                  Node d = ref::obj({ { c.f[j].key, right(c.f[j].type, j) } });
                  load(c, d, false);
                  d = ref::obj();
                  for (int x = 0; x < n; ++x)
                      if (x == j) d.o[c.f[x].key] = right(c.f[x].type, x);
                      else put(d, x, 1);
                  load(c, d, false);
                  d = base();
                  for (int x = 0; x < j; ++x) d.o.erase(c.f[x].key);
                  load(c, d, false);
              }
          },
          [](uint64_t i) { return R[jobs[i].s]->name + " kind " + std::to_string(jobs[i].kind) + " field " + std::to_string(jobs[i].j); }, 4);
    static std::vector<Node> seq;
    std::vector<Node> leaves { ref::null(), ref::boolean(true), ref::num("0"), ref::num("-7"), ref::num("2.5"), ref::str(""), ref::str("a") };
    seq = tr::flat(tr::trees(mc::thorough() ? 4 : 3, leaves, { "a", "b" }));
    e.add("field types", seq.size(), [](uint64_t i) { MC_PART::each([&](auto* p) { field_type<std::decay_t<decltype(*p)>>(seq[i]); }); }, [](uint64_t i) { return ref::dump(seq[i]); });
    // many members beside the fields, in front of them, between them and after them, and fields of every size
    static std::vector<int> few;
    for (int s = 0; s < int(R.size()); ++s)
        if (R[s]->f.size() <= 3 && s % (mc::thorough() ? 1 : 7) == 0) few.push_back(s);
    dm::add_sizes(e, "many members", dm::ladder(mc::thorough() ? 140 : 34, mc::thorough() ? 1u << 13 : 1u << 10), [](size_t n) {
        for (int s : few) {
            auto& c = *R[s];
            if (n > 40 && s % 5) continue;
            Node d = ref::obj();
            for (size_t k = 0; k < n; ++k) d.o[(k % 3 == 0 ? "!" : k % 3 == 1 ? "f" : "~") + dm::key(k)] = k % 2 ? ref::num("1") : ref::arr();
            for (size_t x = 0; x < c.f.size(); ++x) d.o[c.f[x].key] = right(c.f[x].type, int(x));
            load(c, d, n < 10);
            for (size_t x = 0; x < c.f.size(); ++x) {
                Node w = d;
                w.o.erase(c.f[x].key);
                load(c, w, false);
                auto bad = wrongs(c.f[x].type);
                if (bad.empty()) continue;
                w.o[c.f[x].key] = bad[0];
                load(c, w, false);
            }
        }
    });
    dm::add_mixed(e, "field types, every size", 6, mc::thorough() ? 140 : 20, mc::thorough() ? 1u << 11 : 1u << 9, [](const Node& n) { MC_PART::each([&](auto* p) { field_type<std::decay_t<decltype(*p)>>(n); }); });
    dm::add_sizes(e, "field types, every string size", dm::ladder(mc::thorough() ? 300 : 70, 1u << 16), [](size_t n) {
        for (const Node& x : { ref::str(S(n, 's')), ref::arr({ ref::str(S(n, 's')), ref::str(S(n, 't')) }), ref::obj({ { S(n, 'k'), ref::str(S(n, 's')) } }) })
            MC_PART::each([&](auto* p) { field_type<std::decay_t<decltype(*p)>>(x); });
    });
}
MC_MAIN(setup)
