// C34: entropy equals Shannon entropy however the data is supplied.
#include <sys/mman.h>
#include <unistd.h>
#include "util.h"
#include "images.h"
#include <cmath>
using namespace u;
const char* const mc::check_id = "C34";

static double reference(const Bytes& b)
{
    size_t n[256] = {};
    for(size_t i = 0; i < b.size(); ++i) ++n[static_cast<uint8_t>(b[i])];
    double e = 0;
    for(int i = 0; i < 256; ++i) if(n[i]) { const double p = static_cast<double>(n[i]) / b.size(); e -= p * std::log2(p); }
    return e;
}
static void same(mc::Ctx& c, double got, const Bytes& b, const char* how)
{
    const double want = reference(b);
    MC_REQUIRE(c, std::fabs(got - want) < 1e-6, "value", "entropy over %s is %.9f, Shannon entropy is %.9f", how, got, want);
    MC_REQUIRE(c, got >= 0 && got < 8 + 1e-9, "range", "entropy over %s is %.9f", how, got);
}
static void all_ways(mc::Ctx& c, const Bytes& b, size_t split1, size_t split2, size_t pos)
{
    // buffer
    bool refused = false;
    try { same(c, entropy_calculator::calculate_entropy(b.data(), b.size()), b, "a buffer"); } catch(const pe_exception&) { refused = true; }
    MC_REQUIRE(c, refused == b.empty(), "empty", "a buffer of %zu bytes is %s", b.size(), refused ? "refused" : "accepted");
    // section, with either view current
    section s; s.set_raw_data(b); s.set_virtual_size(static_cast<uint32_t>(b.size()) + 3);
    for(int v = 0; v < 2; ++v)
    {
        if(v) s.get_virtual_data(0x10);
        refused = false;
        try { same(c, entropy_calculator::calculate_entropy(s), b, "a section"); } catch(const pe_exception&) { refused = true; }
        MC_REQUIRE(c, refused == b.empty(), "empty", "a section of %zu bytes is %s", b.size(), refused ? "refused" : "accepted");
    }
    // stream from a position
    std::istringstream is(b);
    is.seekg(pos);
    const Bytes rest = b.substr(pos);
    refused = false;
    try { same(c, entropy_calculator::calculate_entropy(is), rest, "a stream"); } catch(const pe_exception&) { refused = true; }
    MC_REQUIRE(c, refused == rest.empty(), "empty", "a stream with %zu bytes left is %s", rest.size(), refused ? "refused" : "accepted");
    MC_REQUIRE(c, is.good() && static_cast<size_t>(is.tellg()) == pos, "stream-position", "the stream moved");
    // image whose sections hold the parts
    pe_base pe(fresh(c.flip("flavour")));
    const Bytes p[3] = { b.substr(0, split1), b.substr(split1, split2 - split1), b.substr(split2) };
    for(int i = 0; i < 3; ++i) { section t; t.set_name("x"); t.set_raw_data(p[i]); t.set_virtual_size(1); pe.add_section(t); }
    if(c.flip("virtual views")) for(size_t i = 0; i < 3; ++i) pe.get_image_sections()[i].get_virtual_data(0x1000);
    if(!b.empty()) same(c, entropy_calculator::calculate_entropy(pe), b, "an image");
    // data changed in place: the sizes in the headers do not say how much there is
    for(int i = 0; i < 3; ++i)
    {
        pe.get_image_sections()[i].get_raw_data() = p[(i + 1) % 3];
        if(!p[(i + 1) % 3].empty()) same(c, entropy_calculator::calculate_entropy(pe.get_image_sections()[i]), p[(i + 1) % 3], "a section changed in place");
    }
    if(!b.empty()) same(c, entropy_calculator::calculate_entropy(pe), b, "an image changed in place");
    c.outcome(mc::mix(mc::hash(b), mc::mix(split1 * 100 + split2, pos)));
}
static void strings(mc::Ctx& c)
{
    static const char al[] = { '\0', '\1', '\x7f', '\xff' };
    const int n = c.choose(mc::tier_pick(6, 8), "length");
    Bytes b;
    for(int i = 0; i < n; ++i) b += c.pick(al, "byte");
    const size_t s2 = c.choose(n + 1, "split"), s1 = c.choose(static_cast<int>(s2) + 1, "split"), pos = c.choose(n + 1, "position");
    c.desc("%s split %zu/%zu from %zu", mc::hex(b).c_str(), s1, s2, pos);
    all_ways(c, b, s1, s2, pos);
}
static void distributions(mc::Ctx& c)
{
    // k different byte values, each m times, starting at value v
    static const int ks[] = { 1, 2, 3, 127, 128, 129, 255, 256 };
    const int k = c.pick(ks, "values"), m = 1 + c.choose(4, "repeats"), v = c.choose(4, "first value") * 85, extra = c.choose(3, "extra of one");
    Bytes b;
    for(int i = 0; i < m; ++i) for(int j = 0; j < k; ++j) b += static_cast<char>(v + j);
    b.append(extra * 50, static_cast<char>(v));
    c.desc("%d values from %d, %d times, %d extra", k, v, m, extra * 50);
    const size_t pos[] = { 0, 1, b.size() / 2, b.size() - 1 };
    all_ways(c, b, b.size() / 3, b.size() / 2, c.pick(pos, "position"));
}
static void huge(mc::Ctx& c)
{
    // counts past 16 bits
    const int k = c.choose(2, "size");
    Bytes b(k ? 0x40000 : 0x10001, 'a');
    for(size_t i = 0; i < b.size(); i += 3) b[i] = 'b';
    all_ways(c, b, 0x100, 0x8001, 0);
}
// The rest of a stream of several gigabytes, and streams that stand behind their end
static void positions(mc::Ctx& c)
{
    static const uint64_t sizes[] = { 0, 1, 40, 0x7fffffff, 0x80000000u, 0xfffffff0u, 0x100000000ull, 0x100000003ull, 0x280000000ull };
    SparseBuf b;
    b.size = c.pick(sizes, "size");
    const int from = c.choose(44, "from the end");
    const int64_t left = from < 34 ? from : from == 34 ? 0x100 : from == 35 ? -1 : from == 36 ? -2 : from == 37 ? -256 : from == 38 ? -0x80000000ll : from == 39 ? -0x100000000ll : from == 40 ? -0xffffffffll : 34 + from;
    if(left > static_cast<int64_t>(b.size)) { c.outcome(0); return; }
    b.pos = b.size - left;
    b.far = img::pattern(0x100, 5);
    b.far_at = b.size > 0x100 ? b.size - 0x100 : 0;
    Bytes rest;
    for(int64_t i = 0; i < left; ++i) rest += b.at(b.pos + i);
    const uint64_t start = b.pos;
    std::istream is(&b);
    double got = 0;
    bool refused = false;
    c.step();
    c.desc("a stream of %llu bytes with %lld left", static_cast<unsigned long long>(b.size), static_cast<long long>(left));
    try { got = entropy_calculator::calculate_entropy(is); } catch(const pe_exception&) { refused = true; }
    MC_REQUIRE(c, refused == (left <= 0), "empty", "a stream with %lld bytes left is %s", static_cast<long long>(left), refused ? "refused" : "accepted");
    if(!refused) same(c, got, rest, "a stream");
    MC_REQUIRE(c, b.pos == start, "position", "the stream stands elsewhere");
    c.outcome(mc::mix(b.size, from));
}
// Counts past 32 bits: two values, the second mapped from one block again and again
static void gigabytes(mc::Ctx& c)
{
    static const uint32_t mega[][2] = { { 4096, 2048 }, { 2048, 4096 }, { 4098, 4098 } };
    if(!mc::thorough()) { c.outcome(0); return; }
    mc::allow_seconds(400);
    const int which = c.choose(3, "sizes");
    const uint64_t block = 2 << 20, zeros = static_cast<uint64_t>(mega[which][0]) << 20, ones = static_cast<uint64_t>(mega[which][1]) << 20;
    char* const at = static_cast<char*>(mmap(0, zeros + ones, PROT_READ, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
    const int fd = memfd_create("ones", 0);
    bool ready = at != MAP_FAILED && fd >= 0;
    if(ready) { const Bytes b(block, 'b'); ready = write(fd, b.data(), block) == static_cast<ssize_t>(block); }
    for(uint64_t i = 0; ready && i < ones; i += block) ready = mmap(at + zeros + i, block, PROT_READ, MAP_PRIVATE | MAP_FIXED, fd, 0) != MAP_FAILED;
    double got = -1;
    c.step();
    if(ready) got = entropy_calculator::calculate_entropy(at, zeros + ones);
    if(at != MAP_FAILED) munmap(at, zeros + ones);
    if(fd >= 0) close(fd);
    if(!ready) { c.outcome(0); return; }                               // no address space here
    const double p = static_cast<double>(zeros) / (zeros + ones), want = -p * std::log2(p) - (1 - p) * std::log2(1 - p);
    MC_REQUIRE(c, std::fabs(got - want) < 1e-9, "value", "entropy of %llu and %llu bytes is %.12f, should be %.12f", static_cast<unsigned long long>(zeros), static_cast<unsigned long long>(ones), got, want);
    c.outcome(which + 1);
}
namespace mc
{
const Part parts[] = {
    { "byte-strings", strings, 0, 0, "all strings up to 5 (7) bytes over 4 values x all splits into three sections x all stream positions x flavour x section view; each is a distinct case" },
    { "distributions", distributions, 0, 0, "k equally frequent byte values for 8 values of k with repeats, offset and one over-represented value" },
    { "large", huge, 0, 0, "two data sizes past 65536" },
    { "positions", positions, 0, 0, "streams of 9 lengths up to 10 GB with every number of bytes left up to 77, 256, and standing behind their end" },
    { "gigabytes", gigabytes, 0, 0, "thorough tier only: 6 and 8 GB in memory, counts of one value that do not fit in 32 bits" },
};
const int part_count = sizeof(parts) / sizeof(parts[0]);
}
