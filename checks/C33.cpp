// C33: the computed checksum is the documented one.
#include "util.h"
#include "images.h"
using namespace u;
const char* const mc::check_id = "C33";

// 16-bit one's-complement sum without the stored field, plus the length
static uint32_t reference(const Bytes& file)
{
    Bytes f = file;
    const int64_t p = static_cast<int64_t>(static_cast<int32_t>(ref::get32(f, 60))) + 4 + 20 + 64;
    for(int64_t i = p; i < p + 4; ++i) if(i >= 0 && i < static_cast<int64_t>(f.size())) f[i] = 0;
    uint32_t sum = 0;
    for(size_t i = 0; i < f.size(); i += 2)
    {
        sum += static_cast<uint8_t>(f[i]) | (i + 1 < f.size() ? static_cast<uint8_t>(f[i + 1]) << 8 : 0);
        sum = (sum & 0xffff) + (sum >> 16);
    }
    return sum + static_cast<uint32_t>(f.size());
}
static uint32_t actual(const Bytes& f) { std::istringstream is(f); return calculate_checksum(is); }
static void check(mc::Ctx& c, Bytes f)
{
    const uint32_t want = reference(f), got = actual(f);
    MC_REQUIRE(c, got == want, "value", "checksum is %#x, the documented algorithm gives %#x", got, want);
    const int64_t p = static_cast<int64_t>(static_cast<int32_t>(ref::get32(f, 60))) + 88;
    if(p >= 64 && p + 4 <= static_cast<int64_t>(f.size()))
    {
        ref::put32(f, p, want);
        MC_REQUIRE(c, actual(f) == want, "depends-on-stored", "after storing %#x the checksum is %#x", want, actual(f));
        ref::put32(f, p, ~want);
        MC_REQUIRE(c, actual(f) == want, "depends-on-stored", "the stored checksum changes the result");
    }
    c.outcome(mc::mix(mc::hash(f), want));
}
static void words(mc::Ctx& c)
{
    static const uint32_t w[] = { 0, 1, 0xffff, 0x10000, 0xffffffffu, 0xfffeffffu, 0x80000000u, 0xffff0000u };
    const int k = mc::tier_pick(5, 7);
    Bytes f = "MZ";
    f.resize(64, c.flip("fill") ? '\xff' : '\0');
    f[0] = 'M'; f[1] = 'Z';
    static const int lf[] = { 0x40, 0, 4, 0x7ffffffc, -4 + 0x40 };
    ref::put32(f, 60, static_cast<uint32_t>(c.pick(lf, "PE header offset")));
    for(int i = 0; i < k; ++i) ref::put32(f, 64 + 4 * i, c.pick(w, "word"));
    const int cut = c.choose(4, "trailing bytes");
    f.resize(f.size() - cut);
    c.desc("%zu bytes, PE header at %#x, %s", f.size(), ref::get32(f, 60), mc::hex(f.substr(64)).c_str());
    check(c, f);
}
static void lengths(mc::Ctx& c)
{
    // all lengths in a window, all header positions in the file, several fills
    const int n = 64 + c.choose(mc::tier_pick(200, 700), "length");
    const int fill = c.choose(4, "fill");
    Bytes f(n, 0);
    if(fill == 1) f.assign(n, '\xff');
    if(fill == 2) f = img::pattern(n, 3);
    if(fill == 3) for(int i = 0; i < n; ++i) f[i] = i % 4 == 3 ? '\xff' : '\0';
    f[0] = 'M'; f[1] = 'Z';
    const int lf = 4 * c.choose(n / 4 + 2, "PE header offset");
    ref::put32(f, 60, lf);
    c.desc("%d bytes, fill %d, PE header at %#x", n, fill, lf);
    check(c, f);
}
static void totals(mc::Ctx& c)
{
    // one 16-bit word through all its values, in both halves of a double word, beside several neighbours: every residue of the sum,
    // with and without carries into it
    static const uint32_t beside[] = { 0, 0xffffffffu, 0x10000, 0xffff };
    Bytes f("MZ");
    f.resize(mc::tier_pick(72, 80), '\0');
    const uint32_t other = c.pick(beside, "the other words");
    for(size_t i = 64; i < f.size(); i += 4) ref::put32(f, i, other);
    const int half = c.choose(2, "half");
    const int hi = c.choose(256, "high byte"), lo = c.choose(256, "low byte");
    f[64 + 2 * half] = static_cast<char>(lo); f[65 + 2 * half] = static_cast<char>(hi);
    ref::put32(f, 60, c.flip("far header") ? 0x7ffffffc : 0x400);
    c.desc("word %#x", hi << 8 | lo);
    check(c, f);
}
static void blocks(mc::Ctx& c)
{
    // lengths around the sizes a buffered reader would use, the stored field at, before, across and after their ends
    static const int unit[] = { 512, 1024, 4096, 8192, 16384, 32768, 65536, 0x20000 };
    const int b = c.pick(unit, "block"), times = 1 + c.choose(2, "blocks");
    const int n = b * times + c.choose(11, "around") - 5;
    Bytes f(n, 0);
    const int fill = c.choose(3, "fill");
    if(fill == 1) f.assign(n, '\xff');
    if(fill == 2) f = img::pattern(n, 3);
    f[0] = 'M'; f[1] = 'Z';
    static const int at[] = { -8, -4, 0, 4 };
    const int field = c.choose(4, "field at") ;
    const int base = c.flip("second border") ? b * 2 : b;
    ref::put32(f, 60, base + at[field] - 88);
    c.desc("%d bytes, fill %d, checksum field at %#x", n, fill, base + at[field]);
    check(c, f);
}
static void images(mc::Ctx& c)
{
    Bytes f = img::base(c.choose(img::kinds, "image"), c.flip("flavour")).build();
    const int extra = c.choose(9, "extra bytes");
    f += img::pattern(extra, 7);
    if(c.flip("large")) f.append(0x30000, '\xff');
    c.desc("image of %zu bytes", f.size());
    check(c, f);
}
static void refused(mc::Ctx& c)
{
    // files without a complete DOS header
    const int n = c.choose(66, "length");
    Bytes f = Bytes("MZ").substr(0, n);
    f.resize(n, 1);
    if(n > 1 && c.flip("wrong signature")) f[1] = 'A';
    const bool good = n >= 64 && f[1] == 'Z';
    bool ok = true;
    try { actual(f); } catch(const pe_exception&) { ok = false; }
    MC_REQUIRE(c, ok == good, "refusal", "%d bytes: %s", n, ok ? "accepted" : "refused");
    c.outcome(n * 2 + ok);
}
namespace mc
{
const Part parts[] = {
    { "word-sequences", words, 0, 0, "all sequences of 5 (7) boundary 32-bit words after the DOS header x PE header offset x trailing bytes; each file is a distinct case" },
    { "lengths-and-positions", lengths, 0, 0, "every file length in a window x every 4-aligned PE header offset x 4 fills" },
    { "every-sum", totals, 0, 0, "all 65536 values of one 16-bit word x both halves of its double word x 4 neighbour words x PE header offset in/after the file: every residue of the sum" },
    { "block-borders", blocks, 0, 0, "8 block sizes (512 .. 128 KB) x 1-2 blocks x length -5..+5 x checksum field -8..+4 around the first and second border x 3 fills" },
    { "images", images, 0, 0, "all base images x both flavours x 0-8 extra bytes x large tail" },
    { "no-dos-header", refused, 0, 0, "every length up to 65 with right and wrong signature" },
};
const int part_count = sizeof(parts) / sizeof(parts[0]);
}
