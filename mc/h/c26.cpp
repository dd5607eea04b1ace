// C26: streams and files.
#include "ref.hpp"
#include "engine.hpp"
#include "trees.hpp"
#include <filesystem>
#include <fstream>
#include <istream>
#include <sstream>
#include <streambuf>
#include <thread>
using ref::Node;
using S = std::string;
namespace fs = std::filesystem;

enum Seek { kSeekable, kRefuses, kNoEnd, kThrows, kOnlyAbsolute, kSeeks };
enum Style { kChunks, kUnbuffered, kBulk, kStyles };
struct Plan
{
    std::vector<size_t> cuts; // positions where one refill ends and the next begins
    Style style = kChunks;
    Seek seek = kSeekable;
    long fail_at = -1; // reading the byte at this position (or the end) throws
    int fail_kind = 0;
};

// A source that delivers its bytes as planned.
class Source : public std::streambuf
{
    S data;
    Plan p;
    size_t pos = 0; // bytes handed out by unbuffered/bulk reads, or the end of the current chunk

    [[noreturn]] void fault() const
    {
        switch (p.fail_kind) {
        case 0: throw std::ios_base::failure("read failure");
        case 1: throw std::runtime_error("read failure");
        default: throw 42;
        }
    }
    size_t chunk_end(size_t from) const
    {
        size_t e = data.size();
        for (size_t c : p.cuts)
            if (c > from) {
                e = c;
                break;
            }
        if (p.fail_at >= 0 && size_t(p.fail_at) > from && size_t(p.fail_at) < e) e = size_t(p.fail_at);
        return e;
    }

protected:
    int_type underflow() override
    {
        if (p.style == kChunks) {
            if (gptr() && gptr() < egptr()) return traits_type::to_int_type(*gptr());
        }
        if (p.fail_at >= 0 && pos == size_t(p.fail_at)) fault();
        if (pos >= data.size()) return traits_type::eof();
        if (p.style != kChunks) return traits_type::to_int_type(data[pos]);
        size_t e = chunk_end(pos);
        setg(data.data() + pos, data.data() + pos, data.data() + e);
        pos = e;
        return traits_type::to_int_type(*gptr());
    }
    int_type uflow() override
    {
        if (p.style == kChunks) return std::streambuf::uflow();
        int_type c = underflow();
        if (c != traits_type::eof()) ++pos;
        return c;
    }
    std::streamsize xsgetn(char* s, std::streamsize n) override
    {
        if (p.style != kBulk) return std::streambuf::xsgetn(s, n);
        std::streamsize got = 0;
        while (got < n && pos < data.size()) {
            if (p.fail_at >= 0 && pos == size_t(p.fail_at)) fault();
            size_t e = std::min(chunk_end(pos), pos + size_t(n - got));
            memcpy(s + got, data.data() + pos, e - pos);
            got += std::streamsize(e - pos);
            pos = e;
        }
        if (got < n && p.fail_at >= 0 && pos == size_t(p.fail_at)) fault();
        return got;
    }
    std::streamsize showmanyc() override { return p.style == kChunks || p.seek != kSeekable ? 0 : std::streamsize(data.size() - pos); }
    pos_type seekoff(off_type off, std::ios_base::seekdir dir, std::ios_base::openmode) override
    {
        if (p.seek == kThrows) fault();
        if (p.seek == kRefuses || p.seek == kOnlyAbsolute || (p.seek == kNoEnd && dir == std::ios_base::end)) return pos_type(off_type(-1));
        off_type here = off_type(pos) - (p.style == kChunks && gptr() ? egptr() - gptr() : 0);
        return go(off + (dir == std::ios_base::cur ? here : dir == std::ios_base::end ? off_type(data.size()) : 0));
    }
    pos_type seekpos(pos_type q, std::ios_base::openmode) override
    {
        if (p.seek == kThrows) fault();
        if (p.seek == kRefuses) return pos_type(off_type(-1));
        return go(off_type(q));
    }
    pos_type go(off_type o)
    {
        if (o < 0 || o > off_type(data.size())) return pos_type(off_type(-1));
        pos = size_t(o);
        setg(nullptr, nullptr, nullptr);
        return pos_type(o);
    }

public:
    Source(S d, Plan plan) : data(std::move(d)), p(std::move(plan)) {}
};

static std::optional<Node> want(const S& bytes, bool bom, bool comments)
{
    return ref::parse(bom && bytes.compare(0, 3, "\xef\xbb\xbf") == 0 && bytes.size() >= 3 ? bytes.substr(3) : bytes, comments);
}
static void judge(const std::optional<json::value>& got, const S& bytes, bool bom, bool comments, const char* how)
{
    mc::step();
    mc::validated();
    const auto w = want(bytes, bom, comments);
    mc::outcome(w ? ref::dump(*w) : "none");
    auto what = [&] { return S(how) + " with bom=" + (bom ? "1" : "0") + " comments=" + (comments ? "1" : "0") + " of " + mc::show(bytes); };
    if (bool(got) != bool(w)) mc::fail(what() + (got ? " gives a value" : " gives nothing"));
    if (got) {
        auto d = ref::diff(*got, *w);
        if (!d.empty()) mc::fail(what() + ": " + d);
    }
}
static std::optional<json::value> guarded(const S& bytes, const char* how, const std::function<std::optional<json::value>()>& f)
{
    try {
        return f();
    }
    catch (...) {
        mc::fail(S(how) + " throws for " + mc::show(bytes));
    }
}
static std::optional<json::value> parse_from(std::streambuf& b, const S& bytes, bool bom, bool comments, const char* how)
{
    std::istream in(&b);
    return guarded(bytes, how, [&] { return json::parse(in, bom, comments); });
}

static S scratch_file()
{
    static S f = mc::g_scratch + "/c26." + std::to_string(getpid());
    return f;
}
static void write_file(const S& path, const S& bytes)
{
    FILE* f = fopen(path.c_str(), "wb");
    if (!f || fwrite(bytes.data(), 1, bytes.size(), f) != bytes.size() || fclose(f)) std::abort();
}
static void from_file(const S& bytes)
{
    const S path = scratch_file();
    write_file(path, bytes);
    for (int fl = 0; fl < 4; ++fl) {
        const bool bom = fl & 1, com = fl & 2;
        judge(guarded(bytes, "open(string)", [&] { return json::open(path, bom, com); }), bytes, bom, com, "open(string)");
        judge(guarded(bytes, "open(const char*)", [&] { return json::open(path.c_str(), bom, com); }), bytes, bom, com, "open(const char*)");
        judge(guarded(bytes, "open(path)", [&] { return json::open(fs::path(path), bom, com); }), bytes, bom, com, "open(path)");
        std::ifstream in(path);
        judge(guarded(bytes, "ifstream", [&] { return json::parse(in, bom, com); }), bytes, bom, com, "ifstream");
        if (!fl) {
            judge(guarded(bytes, "open with defaults", [&] { return json::open(path); }), bytes, false, false, "open with defaults");
            std::ifstream bin(path, std::ios::binary);
            bin.seekg(0, std::ios::end);
            judge(guarded(bytes, "ifstream at its end", [&] { return json::parse(bin); }), bytes, false, false, "ifstream at its end");
        }
    }
}

static void memory(const S& bytes)
{
    mc::state(bytes);
    for (int fl = 0; fl < 4; ++fl) {
        const bool bom = fl & 1, com = fl & 2;
        {
            std::istringstream in(bytes);
            // the whole content, wherever the stream is, again and again
            judge(guarded(bytes, "istringstream", [&] { return json::parse(in, bom, com); }), bytes, bom, com, "istringstream");
            if (in) judge(guarded(bytes, "second parse", [&] { return json::parse(in, bom, com); }), bytes, bom, com, "second parse");
        }
        {
            std::stringstream in(bytes);
            in.exceptions(std::ios::failbit | std::ios::badbit | std::ios::eofbit);
            if (!bytes.empty()) in.get();
            judge(guarded(bytes, "stream with exceptions on", [&] { return json::parse(in, bom, com); }), bytes, bom, com, "stream with exceptions on");
        }
        for (int st = 0; st < kStyles; ++st)
            for (int sk = 0; sk < kSeeks; ++sk) {
                if (sk == kThrows) continue;
                Plan p;
                p.style = Style(st), p.seek = Seek(sk);
                Source s(bytes, p);
                judge(parse_from(s, bytes, bom, com, "custom stream"), bytes, bom, com, "custom stream");
            }
        if (fl == 0) {
            std::istringstream in(bytes);
            judge(guarded(bytes, "parse(stream)", [&] { return json::parse(in); }), bytes, false, false, "parse(stream)");
            std::istringstream in2(bytes);
            judge(guarded(bytes, "parse(stream, true)", [&] { return json::parse(in2, true); }), bytes, true, false, "parse(stream, true)");
            for (auto st : { std::ios::failbit, std::ios::badbit }) {
                std::istringstream bad(bytes);
                bad.setstate(st);
                if (guarded(bytes, "failed stream", [&] { return json::parse(bad); })) mc::fail("a failed stream gives a value for " + mc::show(bytes));
            }
            std::istringstream e(bytes);
            e.setstate(std::ios::eofbit);
            auto v = guarded(bytes, "stream with eofbit", [&] { return json::parse(e); });
            if (v) judge(v, bytes, false, false, "stream with eofbit");
        }
    }
}

// every composition of the content into chunks, non-seekable streams already partly consumed
static void chunked(const S& bytes, uint64_t cuts)
{
    Plan p;
    for (size_t i = 1; i < bytes.size(); ++i)
        if (cuts >> (i - 1) & 1) p.cuts.push_back(i);
    for (int st = 0; st < kStyles; ++st)
        for (int sk : { int(kSeekable), int(kRefuses) }) {
            p.style = Style(st), p.seek = Seek(sk);
            for (int fl = 0; fl < 4; ++fl) {
                Source s(bytes, p);
                judge(parse_from(s, bytes, fl & 1, fl & 2, "chunked stream"), bytes, fl & 1, fl & 2, "chunked stream");
            }
            // one byte taken before: a stream that cannot seek continues there, others start over
            if (!bytes.empty()) {
                Source s(bytes, p);
                s.sbumpc();
                const S rest = sk == kRefuses ? bytes.substr(1) : bytes;
                judge(parse_from(s, rest, true, true, "partly read stream"), rest, true, true, "partly read stream");
            }
        }
}
// a failure at one point of the stream, after a refill pattern
static void faulty(const S& bytes, size_t at, size_t step)
{
    Plan p;
    for (size_t i = step; i < bytes.size(); i += step) p.cuts.push_back(i);
    p.fail_at = long(at);
    for (int kind = 0; kind < 3; ++kind)
        for (int st = 0; st < kStyles; ++st)
            for (int sk = 0; sk < kSeeks; ++sk)
                for (int fl = 0; fl < 4; ++fl) {
                    p.fail_kind = kind, p.style = Style(st), p.seek = Seek(sk);
                    Source s(bytes, p);
                    mc::step();
                    auto v = parse_from(s, bytes, fl & 1, fl & 2, "failing stream");
                    if (v) mc::fail("a read failure at byte " + std::to_string(at) + " gives " + v->to_string() + " for " + mc::show(bytes));
                    mc::validated();
                }
}
static void seek_throws(const S& bytes)
{
    for (int kind = 0; kind < 3; ++kind)
        for (int st = 0; st < kStyles; ++st)
            for (int fl = 0; fl < 4; ++fl) {
                Plan p;
                p.seek = kThrows, p.style = Style(st), p.fail_kind = kind;
                Source s(bytes, p);
                auto v = parse_from(s, bytes, fl & 1, fl & 2, "stream whose seeking throws");
                if (v) judge(v, bytes, fl & 1, fl & 2, "stream whose seeking throws");
            }
}

static S fifo_text(const S& bytes, uint64_t cuts, bool bom, bool com, std::optional<json::value>& out)
{
    const S path = scratch_file() + ".fifo";
    unlink(path.c_str());
    if (mkfifo(path.c_str(), 0600)) std::abort();
    std::thread w([&] {
        int fd = ::open(path.c_str(), O_WRONLY);
        size_t from = 0;
        for (size_t i = 1; i <= bytes.size(); ++i)
            if (i == bytes.size() || (cuts >> (i - 1) & 1)) {
                if (::write(fd, bytes.data() + from, i - from) < 0) break;
                from = i;
                std::this_thread::yield();
            }
        ::close(fd);
    });
    S err;
    try {
        out = json::open(path, bom, com);
    }
    catch (...) {
        err = "throws";
    }
    w.join();
    unlink(path.c_str());
    return err;
}

// output: what << writes is the pretty text and reads back
static void output(const Node& n)
{
    const json::value v = ref::build(n);
    std::ostringstream o;
    o << v;
    mc::step();
    if (o.str() != ref::format(n)) mc::fail("<< writes " + mc::show(o.str()) + " for " + ref::dump(n));
    if (n.k == ref::Arr) {
        std::ostringstream a;
        a << v.as_array();
        if (a.str() != ref::format(n)) mc::fail("<< of an array writes " + mc::show(a.str()));
    }
    if (n.k == ref::Obj) {
        std::ostringstream a;
        a << v.as_object();
        if (a.str() != ref::format(n)) mc::fail("<< of an object writes " + mc::show(a.str()));
    }
    if (n.k == ref::Arr || n.k == ref::Obj) {
        // through a file, through a stream, twice into one stream
        const S path = scratch_file();
        {
            std::ofstream f(path);
            f << v;
        }
        for (int com = 0; com < 2; ++com) {
            auto r = json::open(path, true, com);
            if (!r || !ref::diff(*r, n).empty()) mc::fail("a file written with << does not read back: " + ref::dump(n));
        }
        std::stringstream s;
        s << v;
        auto r = json::parse(s);
        if (!r || *r != v) mc::fail("a stream written with << does not read back: " + ref::dump(n));
    }
    ref::expect_same(v, n, "value after output");
    mc::validated();
}

static void setup(mc::Engine& e)
{
    const bool th = mc::thorough();
    static const S BOM = "\xef\xbb\xbf";
    // contents over bytes that matter here
    static const S ab = S("[]1,/*\n \xef\xbb\xbf\0", 12);
    static const unsigned maxlen = th ? 6 : 5;
    for (unsigned len = 0; len <= maxlen; ++len)
        e.add(
            "contents " + std::to_string(len), mc::ipow(ab.size(), len),
            [len](uint64_t i) {
                mc::Dec d(i);
                S t;
                for (unsigned k = 0; k < len; ++k) t += ab[d(ab.size())];
                memory(t);
                if (len <= 2) from_file(t);
            },
            [len](uint64_t i) {
                mc::Dec d(i);
                S t;
                for (unsigned k = 0; k < len; ++k) t += ab[d(ab.size())];
                return mc::show(t);
            });
    // documents behind every prefix of byte order marks
    static std::vector<S> docs;
    for (S d : { "[]", "{}", "[1]", "{\"a\":[1,2,{}]}", "[1,//x\n2]", "[/* \xef\xbb\xbf */]", "[\"\xef\xbb\xbf\"]", " [null,true]\n", "[1", "1", "", "[1]]", "{\"\xef\xbb\xbf\":1}" }) docs.push_back(d);
    docs.push_back(S("[1]\0", 4)), docs.push_back(S("[1]\0x", 5)), docs.push_back(S("[1,/*\0*/2]", 10)), docs.push_back(S("[//\0\n3]", 7)), docs.push_back(S("[\"\0\"]", 5)), docs.push_back(S("\0[1]", 4));
    static std::vector<S> texts;
    for (auto& d : docs)
        for (S p : { S(), BOM, BOM + BOM, BOM + BOM + BOM, S("\xef"), S("\xef\xbb"), S("\xbb\xbf"), S("\xef\xbf\xbb"), S("\xfe\xff"), S("\xff\xfe"), " " + BOM, BOM + " ", BOM + "\n", BOM + "//c\n", "/**/" + BOM, S("\0", 1) + BOM, BOM + S("\0", 1), S("\xef\xbb\xbe"), S("\xee\xbb\xbf"), S("\xef\xba\xbf") })
            for (S q : { S(), S("\n"), BOM, S("\0", 1), S("//end") }) texts.push_back(p + d + q);
    e.add(
        "prefixes", texts.size(),
        [](uint64_t i) {
            memory(texts[i]);
            from_file(texts[i]);
            seek_throws(texts[i]);
        },
        [](uint64_t i) { return mc::show(texts[i]); });
    // every way of delivering short contents in chunks
    static std::vector<S> shorts;
    for (auto& t : texts)
        if (t.size() <= (th ? 11 : 8)) shorts.push_back(t);
    static std::vector<uint64_t> start;
    uint64_t total = 0;
    for (auto& t : shorts) start.push_back(total), total += t.empty() ? 1 : 1ull << (t.size() - 1);
    auto pick = [](uint64_t i) { return size_t(std::upper_bound(start.begin(), start.end(), i) - start.begin()) - 1; };
    e.add(
        "chunkings", total, [pick](uint64_t i) { chunked(shorts[pick(i)], i - start[pick(i)]); },
        [pick](uint64_t i) { return mc::show(shorts[pick(i)]) + " cuts " + std::to_string(i - start[pick(i)]); });
    // pipes
    static std::vector<S> pipes { "[]", "[1]", "[1,2]", BOM + "[]", "[//\n]", "[1", "{\"a\":1}" };
    static std::vector<uint64_t> pstart;
    uint64_t ptotal = 0;
    for (auto& t : pipes) pstart.push_back(ptotal), ptotal += 1ull << (t.size() - 1);
    auto ppick = [](uint64_t i) { return size_t(std::upper_bound(pstart.begin(), pstart.end(), i) - pstart.begin()) - 1; };
    e.add(
        "pipes", ptotal,
        [ppick](uint64_t i) {
            const S& t = pipes[ppick(i)];
            std::optional<json::value> v;
            const bool bom = i & 1, com = i & 2;
            S err = fifo_text(t, i - pstart[ppick(i)], bom, com, v);
            if (!err.empty()) mc::fail("reading a pipe " + err);
            judge(v, t, bom, com, "open of a pipe");
        },
        [ppick](uint64_t i) { return "pipe " + mc::show(pipes[ppick(i)]); });
    // failures at every point
    static std::vector<S> fdocs;
    for (S d : { "[]", "[1,2,3]", "{\"a\":[1,2,{}]}   ", "[1]\n\n", "[//x\n]", "" }) fdocs.push_back(d), fdocs.push_back(BOM + d);
    fdocs.push_back(S("[1]\0\0", 5));
    e.add(
        "failures", fdocs.size() * 24 * 5,
        [](uint64_t i) {
            mc::Dec d(i);
            const S& t = fdocs[d(fdocs.size())];
            const size_t at = d(24);
            static const size_t steps[] = { 1, 2, 3, 7, 1000 };
            if (at > t.size()) return;
            faulty(t, at, steps[d(5)]);
        },
        [](uint64_t i) { return "failure " + std::to_string(i); });
    // long contents around buffer sizes, complete, cut off, and failing there
    static std::vector<size_t> lens;
    for (size_t k : { size_t(0), size_t(64), size_t(256), size_t(512), size_t(1024), size_t(2048), size_t(4096), size_t(8191), size_t(8192), size_t(12288), size_t(16384), size_t(65536) })
        for (long d = -6; d <= 6; ++d)
            if (long(k) + d >= 0 || th) lens.push_back(size_t(std::max(0l, long(k) + d)));
    if (th)
        for (size_t k = 0; k < 20000; k += 1) lens.push_back(k);
    e.add(
        "lengths", lens.size() * 5,
        [](uint64_t i) {
            const size_t n = lens[i / 5];
            S t;
            switch (i % 5) {
            case 0: t = "[\"" + S(n, 'x') + "\"]"; break;
            case 1: t = "[" + S(n, ' ') + "\"\\u4e2d\xe4\xb8\xad\"]"; break;
            case 2:
                t = "[0";
                while (t.size() < n) t += ",1";
                t += "]";
                break;
            case 3: t = "[/*" + S(n, '*') + "*/1]"; break;
            default: t = "[1]" + S(n, '\n'); break;
            }
            for (const S& x : { t, BOM + t, t.substr(0, t.size() - 1), t + "x", t + S(1, '\0') + "y" }) {
                memory(x);
                from_file(x);
            }
            for (long d = -2; d <= 2; ++d)
                for (size_t st : { size_t(1000), size_t(4096), size_t(100000) })
                    if (long(n) + d >= 0 && size_t(long(n) + d) <= t.size()) faulty(t, size_t(long(n) + d), st);
        },
        [](uint64_t i) { return "length " + std::to_string(lens[i / 5]) + " kind " + std::to_string(i % 5); }, 1, 60);
    // bytes that mean something to someone, at every place around buffer sizes
    static const std::vector<S> marks = { BOM, BOM + BOM, "\r\n", "\n\r", "\x1a", "\xff", "\\u00e9", "\\ud83d\\ude00", "\\\"", "\xf0\x9f\x98\x80", S(1, '\0'), "\xff\xfe", "*/", "//" };
    static std::vector<size_t> ats;
    for (size_t b : { 512, 1024, 2048, 4096, 8191, 8192, 12288, 16384, 32768, 65536 })
        for (int d = th ? -40 : -9; d <= (th ? 40 : 6); ++d) ats.push_back(b + d);
    e.add(
        "marks", ats.size() * marks.size() * 3,
        [](uint64_t i) {
            mc::Dec d(i);
            const size_t kind = d(3);
            const S& m = marks[d(marks.size())];
            const size_t at = ats[d(ats.size())];
            S head = kind == 0 ? "[\"" : kind == 1 ? "[/*" : "[1";
            S t = head + S(at - head.size(), kind == 2 ? ' ' : 'y') + m;
            t += kind == 0 ? S(40, 'z') + "\"]" : kind == 1 ? S(40, 'z') + "*/1]" : S(5000, ' ') + "]";
            for (const S& x : { t, BOM + t }) {
                memory(x);
                from_file(x);
            }
        },
        [](uint64_t i) {
            mc::Dec d(i);
            const size_t kind = d(3);
            const S& m = marks[d(marks.size())];
            return mc::show(m) + " at offset " + std::to_string(ats[d(ats.size())]) + (kind == 0 ? " in a string" : kind == 1 ? " in a comment" : " between tokens");
        }, 16, 60);
    // places that are no readable file
    e.add("unreadable", 24, [](uint64_t i) {
        const S dir = mc::g_scratch + "/c26dir";
        mkdir(dir.c_str(), 0700);
        const S none[] = { "", dir, dir + "/missing", dir + "/missing/deeper", S(5000, 'x'), dir + "/", "/dev/null", scratch_file() + ".gone" };
        const S& p = none[i % 8];
        const bool bom = i / 8 == 1, com = i / 8 == 2;
        if (i % 8 == 7) {
            write_file(p, "[1]");
            unlink(p.c_str());
        }
        for (int k = 0; k < 3; ++k) {
            mc::step();
            auto v = guarded(p, "open", [&] { return k == 0 ? json::open(p, bom, com) : k == 1 ? json::open(p.c_str(), bom, com) : json::open(fs::path(p), bom, com); });
            if (v) mc::fail("opening " + mc::show(p) + " gives " + v->to_string());
        }
        std::ifstream in(p);
        if (guarded(p, "parse", [&] { return json::parse(in, bom, com); })) mc::fail("a stream of " + mc::show(p) + " gives a value");
        std::istream nobuf(nullptr);
        if (guarded(p, "no buffer", [&] { return json::parse(nobuf, bom, com); })) mc::fail("a stream without a buffer gives a value");
        mc::validated();
    });
    static auto all = tr::flat(tr::trees(th ? 6 : 5, { ref::null(), ref::boolean(true), ref::num("-1.5e3"), ref::str("a\n\x01\"\xef\xbb\xbf") }, { "a", "", "b\\" }));
    e.add("output", all.size(), [](uint64_t i) { output(all[i]); }, [](uint64_t i) { return ref::dump(all[i]); });
}
MC_MAIN(setup)
