// C25: Rich header data is decoded exactly.
#include "util.h"
#include "images.h"
using namespace u;
const char* const mc::check_id = "C25";

static const uint32_t RICH = 0x68636952, DANS = 0x536e6144;
struct E { uint32_t id, count; bool operator==(const E& o) const { return id == o.id && count == o.count; } };
typedef std::vector<E> L;

// Every complete record in the stub: DanS^key ... pairs ... Rich key, a whole number of pairs apart
static std::vector<L> records(const Bytes& b)
{
    std::vector<L> r;
    for(size_t p = 0; p + 8 <= b.size(); ++p)
    {
        if(ref::get32(b, p) != RICH) continue;
        const uint32_t key = ref::get32(b, p + 4);
        for(size_t d = 0; d + 16 <= p; ++d)
        {
            if((ref::get32(b, d) ^ key) != DANS || (p - d) % 8) continue;
            L l;
            for(size_t q = d + 16; q < p; q += 8) { E e = { ref::get32(b, q) ^ key, ref::get32(b, q + 4) ^ key }; l.push_back(e); }
            r.push_back(l);
        }
    }
    return r;
}
static void check(mc::Ctx& c, const Bytes& stub, const L* must)
{
    static pe_base* pe = 0;
    pe_base p(fresh(false));
    (void)pe;
    // an exact-size buffer, so that reading past the stub is caught
    { Bytes exact; exact.reserve(stub.size()); exact = stub; p.set_stub_overlay(exact); }
    const rich_data_list got = get_rich_data(p);
    L g;
    for(size_t i = 0; i < got.size(); ++i) { E e = { got[i].get_number() << 16 | got[i].get_version(), got[i].get_times() }; g.push_back(e);
        MC_REQUIRE(c, got[i].get_version() <= 0xffff, "width", "version %#x is wider than 16 bits", got[i].get_version()); }
    const std::vector<L> r = records(stub);
    if(r.empty()) MC_REQUIRE(c, g.empty(), "invented", "%zu entries from a stub without a complete record", g.size());
    else if(r.size() == 1) MC_REQUIRE(c, g == r[0], "entries", "%zu entries decoded, %zu stored", g.size(), r[0].size());
    else
    {
        bool any = false;
        for(size_t i = 0; i < r.size(); ++i) any |= g == r[i];
        MC_REQUIRE(c, any, "entries", "%zu entries decoded, which is none of the records stored", g.size());
    }
    if(must && r.size() == 1) MC_REQUIRE(c, g == *must, "encoded", "decoded entries differ from the ones encoded");
    c.outcome(mc::mix(mc::hash(stub), g.size()));
}
static Bytes encode(uint32_t key, const L& l)
{
    Bytes b;
    ref::app32(b, DANS ^ key); ref::app32(b, key); ref::app32(b, key); ref::app32(b, key);
    for(size_t i = 0; i < l.size(); ++i) { ref::app32(b, l[i].id ^ key); ref::app32(b, l[i].count ^ key); }
    ref::app32(b, RICH); ref::app32(b, key);
    return b;
}
static const uint32_t keys[] = { 0, 1, 0x12345678, 0xffffffffu, 0x80000000u, RICH, DANS, RICH ^ DANS };
static Bytes around(mc::Ctx& c, uint32_t key, const char* what)
{
    Bytes b;
    switch(c.choose(12, what))
    {
    case 0: break;
    case 1: b = Bytes(1, '\0'); break;
    case 2: b = "Ri"; break;
    case 3: b = "Ric"; break;
    case 4: b = "Rich"; break;
    case 5: b = "RichRich"; break;
    case 6: b = "DanS"; break;
    case 7: ref::app32(b, DANS ^ key); break;
    case 8: ref::app32(b, key); ref::app32(b, key); break;
    case 9: b = img::pattern(0x40, 5); break;
    case 10: b = "Dan"; break;
    case 11: ref::app32(b, RICH); ref::app32(b, key); break;
    }
    return b;
}
static void encoded(mc::Ctx& c)
{
    const uint32_t key = c.pick(keys, "key");
    const int n = c.choose(mc::tier_pick(3, 4), "entries");
    L l;
    for(int i = 0; i < n; ++i)
    {
        const uint32_t ids[] = { 0, 0x00930001, 0xffffffffu, RICH ^ key, DANS, key };
        const uint32_t cs[] = { 0, 1, 0xffffffffu, RICH ^ key, DANS };
        E e = { c.pick(ids, "tool"), c.pick(cs, "count") };
        l.push_back(e);
    }
    const Bytes pre = around(c, key, "before"), post = around(c, key, "after");
    const Bytes b = pre + encode(key, l) + post;
    c.desc("key %#x, %d entries, %zu bytes before, %zu after: %s", key, n, pre.size(), post.size(), mc::hex(b, 120).c_str());
    check(c, b, &l);
}
static void words(mc::Ctx& c)
{
    const uint32_t key = c.flip("key") ? 0x5a5a0f0f : RICH;
    const uint32_t al[] = { RICH, DANS ^ key, key, 0, DANS };
    const int n = c.choose(mc::tier_pick(8, 10), "words");
    const int lead = c.choose(2, "leading byte");
    Bytes b(lead, 'R');
    for(int i = 0; i < n; ++i) ref::app32(b, c.pick(al, "word"));
    const int cut = c.choose(4, "cut");
    if(static_cast<size_t>(cut) <= b.size()) b.resize(b.size() - cut);
    c.desc("%s", mc::hex(b, 64).c_str());
    check(c, b, 0);
}
static void truncations(mc::Ctx& c)
{
    const uint32_t key = c.pick(keys, "key");
    L l;
    const int n = c.choose(3, "entries");
    for(int i = 0; i < n; ++i) { E e = { 0x00a10000u + i, 7u + i }; l.push_back(e); }
    Bytes b = encode(key, l);
    const size_t from = c.choose(static_cast<int>(b.size()) + 1, "first byte kept");
    const size_t len = c.choose(static_cast<int>(b.size() - from) + 1, "bytes kept");
    b = Bytes(c.choose(5, "shift"), 'x') + b.substr(from, len) + Bytes(c.choose(5, "padding"), '\0');
    c.desc("%s", mc::hex(b, 64).c_str());
    check(c, b, 0);
}
static void flips(mc::Ctx& c)
{
    // every single-bit corruption of a record, two records side by side
    L l; E e1 = { 0x00830001, 3 }, e2 = { 0x00ff1234, 9 }; l.push_back(e1); l.push_back(e2);
    Bytes b = encode(0x1badcafe, l);
    if(c.flip("second record")) { L m; m.push_back(e2); b += encode(c.flip("same key") ? 0x1badcafe : 0x77777777, m); }
    const int byte = c.choose(static_cast<int>(b.size()), "byte"), bit = c.choose(8, "bit");
    b[byte] = static_cast<char>(b[byte] ^ 1 << bit);
    check(c, b, 0);
}
static void files(mc::Ctx& c)
{
    // through a file
    ref::Spec s = img::base(img::k_plain, c.flip("flavour"));
    L l; E e1 = { 0x00830001, 3 }; l.push_back(e1); E e2 = { 0x0099fe00, 1 }; l.push_back(e2);
    s.stub = img::pattern(c.choose(20, "stub before"), 3) + encode(c.pick(keys, "key"), l) + Bytes(c.choose(9, "stub after"), '\0');
    s.lfanew = static_cast<uint32_t>(ref::up(64 + s.stub.size(), 4));
    s.stub.resize(s.lfanew - 64, 0);
    pe_base pe(open_pe(s.build()));
    const rich_data_list g = get_rich_data(pe);
    if(records(s.stub).size() == 1) MC_REQUIRE(c, g.size() == 2 && g[0].get_number() == 0x83 && g[0].get_version() == 1 && g[0].get_times() == 3 && g[1].get_number() == 0x99 && g[1].get_version() == 0xfe00 && g[1].get_times() == 1, "file", "%zu entries decoded from the file", g.size());
    c.outcome(mc::hash(s.stub));
}
// Records of every number of entries, at any distance from the start
static void sizes(mc::Ctx& c)
{
    static const uint32_t ks[] = { 0x12345678, 0, 0xffff0000u };
    const uint32_t key = c.pick(ks, "key");
    const int w = c.choose(2, "which");
    int n = 3, before = 8 * c.choose(2, "before");
    std::vector<int> ns;
    for(int i = 0; i < mc::tier_pick(80, 400); ++i) ns.push_back(i);
    static const int more[] = { 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1024, 4096, 8192 };
    for(int x : more) ns.push_back(x);
    (w ? before : n) = c.pick(ns, "size");
    L l;
    for(int i = 0; i < n; ++i) { E e = { static_cast<uint32_t>(i % 5 == 2 ? 0xfff00000u + i : (i * 0x10003u) ^ 0x5a), static_cast<uint32_t>(i % 3 ? i : 0x80000000u | i) }; l.push_back(e); }
    const int after = c.choose(9, "after");
    check(c, img::pattern(before, 5) + encode(key, l) + Bytes(after, '\0'), &l);
}
namespace mc
{
const Part parts[] = {
    { "encoded-records", encoded, 0, 0, "8 keys x up to 2 (3) entries over boundary values (including ones that look like the markers) x 12 x 12 surroundings; a case is one stub" },
    { "word-sequences", words, 0, 0, "all sequences of up to 7 (9) words over 5 marker-like words, two keys, shifted by a byte and cut by up to 3 bytes" },
    { "truncations", truncations, 0, 0, "every contiguous part of a record x shift x padding" },
    { "corruptions", flips, 0, 0, "every single-bit change of one or two records" },
    { "sizes", sizes, 0, 0, "records of every number of entries, and at every distance from the start, up to 79 (399) and around powers of two to 8192" },
    { "files", files, 0, 0, "stub position x key through opening a file" },
};
const int part_count = sizeof(parts) / sizeof(parts[0]);
}
