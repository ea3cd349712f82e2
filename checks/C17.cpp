// C17: rebasing moves exactly the relocated addresses.
#include "util.h"
#include "images.h"
using namespace u;
const char* const mc::check_id = "C17";

struct Loc { uint32_t page, off, kind; };
typedef std::vector<Loc> Locs;
static unsigned width(uint32_t kind) { return kind == 3 ? 4 : kind == 10 ? 8 : kind == 0 ? 0 : 2; }

// The image: two sections with raw data of odd lengths, then one without raw data
static Bytes image(bool pe64, uint64_t base, bool dir, const Locs& v)
{
    ref::Spec s(pe64);
    s.imagebase = base;
    Bytes a = img::pattern(0x200, 1);
    // values whose halves carry into one another
    for(int i = 0; i < 0x40; ++i) a[i] = "\xff\xff\xff\x7f\x00\x00\x40\x00\xfe\xff\xff\xff\xff\xff\xff\xff"[i % 16];
    s.add(".text", a);
    s.add(".data", img::pattern(0x400, 7), 0x1800);
    s.add(".bss", Bytes(), 0x1000);
    if(dir)
    {   // one block per entry
        Bytes r;
        for(size_t i = 0; i < v.size(); ++i)
        {
            const bool join = i && v[i].page == v[i - 1].page;
            if(!join) { ref::app32(r, v[i].page); ref::app32(r, 12); ref::app16(r, v[i].kind << 12 | v[i].off); ref::app16(r, 0); }
            else if(ref::get32(r, r.size() - 8) == 12 && ref::get16(r, r.size() - 2) == 0) ref::put16(r, r.size() - 2, v[i].kind << 12 | v[i].off);
            else { ref::app32(r, v[i].page); ref::app32(r, 12); ref::app16(r, v[i].kind << 12 | v[i].off); ref::app16(r, 0); }
        }
        s.add(".reloc", r.empty() ? Bytes(8, 0) : r);
        s.dirs[5].rva = 0x5000; s.dirs[5].size = static_cast<uint32_t>(r.size());
        s.chars &= ~1;
    }
    return s.build();
}
static relocation_table_list tables(const Locs& v, bool join)
{
    relocation_table_list r;
    for(size_t i = 0; i < v.size(); ++i)
    {
        if(!join || r.empty() || r.back().get_rva() != v[i].page) r.push_back(relocation_table(v[i].page));
        r.back().add_relocation(relocation_entry(static_cast<uint16_t>(v[i].off), static_cast<uint16_t>(v[i].kind)));
    }
    return r;
}
// Adds the difference where the list says; false if a location is outside raw data
static bool apply(std::vector<Bytes>& raw, const std::vector<uint32_t>& va, const Locs& v, uint64_t delta)
{
    for(size_t i = 0; i < v.size(); ++i)
    {
        const unsigned w = width(v[i].kind);
        if(!w) continue;
        const uint64_t at = uint64_t(v[i].page) + v[i].off;
        bool done = false;
        for(size_t s = 0; s < raw.size(); ++s)
        {
            if(at < va[s] || at + w > va[s] + raw[s].size()) continue;
            const size_t o = static_cast<size_t>(at - va[s]);
            uint64_t x = 0;
            for(unsigned k = 0; k < w; ++k) x |= uint64_t(uint8_t(raw[s][o + k])) << 8 * k;
            x += v[i].kind == 1 ? delta >> 16 : delta;
            for(unsigned k = 0; k < w; ++k) raw[s][o + k] = static_cast<char>(x >> 8 * k);
            done = true;
        }
        if(!done) return false;
    }
    return true;
}
static void get(const pe_base& pe, std::vector<Bytes>& raw, std::vector<uint32_t>& va)
{
    raw.clear(); va.clear();
    for(size_t i = 0; i < pe.get_image_sections().size(); ++i) { raw.push_back(pe.get_image_sections()[i].get_raw_data()); va.push_back(pe.get_image_sections()[i].get_virtual_address()); }
}
static uint64_t base_of(const pe_base& pe, bool pe64) { return pe64 ? pe.get_image_base_64() : pe.get_image_base_32(); }
static Bytes rest(const pe_base& pe, bool pe64)
{   // everything but section contents and the image base
    Bytes r = fingerprint(pe, false);
    const size_t o = 24 + (pe64 ? 24 : 28);
    for(unsigned k = 0; k < (pe64 ? 8u : 4u); ++k) r[o + k] = 0;
    return r.substr(0, pe.get_sizeof_nt_header() + 64);
}
static void compare(mc::Ctx& c, const char* what, const std::vector<Bytes>& now, const std::vector<Bytes>& want)
{
    MC_REQUIRE(c, now.size() == want.size(), "sections", "%s: section count changed", what);
    for(size_t s = 0; s < now.size(); ++s)
    {
        MC_REQUIRE(c, now[s].size() == want[s].size(), "section-size", "%s: section %zu has %#zx bytes, should have %#zx", what, s, now[s].size(), want[s].size());
        for(size_t k = 0; k < now[s].size(); ++k) MC_REQUIRE(c, now[s][k] == want[s][k], "byte", "%s: byte %#zx of section %zu is %02x, should be %02x", what, k, s, (uint8_t)now[s][k], (uint8_t)want[s][k]);
    }
}
static const uint64_t bases32[] = { 0x400000, 0x10000, 0x7fff0000, 0xffff0000, 0 };
static const uint64_t bases64[] = { 0x140000000ULL, 0x10000, 0x7fff0000, 0xffff0000, 0, 0xffffffffffff0000ULL, 0x7fff12340000ULL };
static uint64_t pick_base(mc::Ctx& c, bool pe64, const char* what)
{
    return pe64 ? bases64[c.choose(7, what)] : bases32[c.choose(5, what)];
}
static Loc pick_loc(mc::Ctx& c, const uint32_t* kinds, int nk)
{
    // .text 0x1000..0x1200, .data 0x2000..0x2400 (virtual up to 0x3800), .bss 0x4000..0x5000
    static const struct { uint32_t page, off; int from_end; } at[] = {
        { 0x1000, 0, 0 }, { 0x1000, 8, 0 }, { 0x1000, 3, 0 }, { 0x1000, 0x200, 1 }, { 0x2000, 0, 0 }, { 0x2000, 0x400, 1 }, { 0x1ff0, 0x10, 0 },
        { 0x1000, 0x200, 2 }, { 0x1000, 0x200, 0 }, { 0x2000, 0x400, 2 }, { 0x3000, 0, 0 }, { 0x4000, 0, 0 }, { 0x7000, 0, 0 }, { 0xfffff000, 0xfff, 0 }, { 0xffffffff, 0xfff, 0 }, { 0xfffff800, 0x840, 0 } };
    const int k = c.choose(16, "location");
    Loc l; l.page = at[k].page; l.kind = kinds[c.choose(nk, "kind")];
    const unsigned w = width(l.kind);
    l.off = at[k].off - (at[k].from_end == 1 ? w : at[k].from_end == 2 ? (w ? w - 1 : 0) : 0);
    c.desc(" %#x+%#x:%u", l.page, l.off, l.kind);
    return l;
}
static void rebase(mc::Ctx& c)
{
    const bool pe64 = c.flip("flavour");
    const uint64_t from = pick_base(c, pe64, "from"), to = pick_base(c, pe64, "to");
    const bool dir = c.flip("list taken from the image"), join = !dir && c.flip("one table per page");
    static const uint32_t kinds[] = { 3, 10, 0, 1, 2 };
    c.desc("%s %#llx -> %#llx %s:", pe64 ? "PE+" : "PE", (unsigned long long)from, (unsigned long long)to, dir ? "directory" : "list");
    const int n = c.choose(3, "locations");
    Locs v;
    for(int i = 0; i < n; ++i) v.push_back(pick_loc(c, kinds, i ? mc::tier_pick(2, 5) : 5));
    pe_base pe(open_pe(image(pe64, from, dir, v), false, false));
    const Bytes fp = fingerprint(pe), r0 = rest(pe, pe64);
    std::vector<Bytes> raw, now, orig; std::vector<uint32_t> va, va2;
    get(pe, raw, va); orig = raw;
    const relocation_table_list l = dir ? get_relocations(pe) : tables(v, join);
    const uint64_t mask = pe64 ? ~0ULL : 0xffffffffULL;
    const bool fits = apply(raw, va, v, (to & mask) - (from & mask));
    c.step();
    bool refused = false;
    try { rebase_image(pe, l, to); } catch(const pe_exception&) { refused = true; }
    MC_REQUIRE(c, refused == !fits, fits ? "refused" : "not-refused", "the list %s", fits ? "fits but is refused" : "names a location outside raw data but is not refused");
    MC_REQUIRE(c, rest(pe, pe64) == r0, "headers", "other header fields changed");
    if(refused)
    {
        MC_REQUIRE(c, base_of(pe, pe64) == from, "refused-base", "the refused list changed the image base to %#llx", (unsigned long long)base_of(pe, pe64));
        c.outcome(mc::mix(1, mc::hash(fp)));
        return;
    }
    get(pe, now, va2);
    MC_REQUIRE(c, base_of(pe, pe64) == to, "base", "image base is %#llx", (unsigned long long)base_of(pe, pe64));
    MC_REQUIRE(c, va == va2, "moved", "sections moved");
    compare(c, "rebased", now, raw);
    uint64_t h = to; for(size_t i = 0; i < now.size(); ++i) h = mc::mix(h, mc::hash(now[i]));
    c.outcome(h);
    // the file says the same
    pe_base copy(pe);
    const Bytes f = write_pe(copy);
    const ref::Img im = ref::Img::parse(f);
    MC_REQUIRE(c, im.h.imagebase == to, "written-base", "written image base is %#llx", (unsigned long long)im.h.imagebase);
    const ref::Mem m = ref::Mem::map(im);
    for(size_t i = 0; i < raw.size(); ++i) MC_REQUIRE(c, raw[i].empty() || m.bytes(va[i], static_cast<uint32_t>(raw[i].size())) == raw[i], "written", "written section %zu differs", i);
    c.trace();
    // and back, unless carries of one location reach into another
    for(size_t i = 0; i < v.size(); ++i)
        for(size_t k = 0; k < i; ++k)
        {
            const uint64_t a = uint64_t(v[i].page) + v[i].off, b = uint64_t(v[k].page) + v[k].off;
            if(a < b + width(v[k].kind) && b < a + width(v[i].kind) && (a != b || v[i].kind != v[k].kind)) return;
        }
    rebase_image(pe, l, from);
    get(pe, now, va2);
    compare(c, "rebased back", now, orig);
    MC_REQUIRE(c, fingerprint(pe) == fp, "back", "rebasing back does not restore the image");
}
// Sequences of rebases end where the last one says
static void histories(mc::Ctx& c)
{
    const bool pe64 = c.flip("flavour");
    const uint64_t from = pick_base(c, pe64, "from");
    const int which = c.choose(4, "list");
    Locs v;
    for(uint32_t i = 0; i < 4; ++i)
        for(uint32_t k = 0; k < 6; ++k)
        {
            static const uint32_t kinds[][6] = { { 3, 3, 3, 3, 3, 3 }, { 10, 10, 10, 10, 10, 10 }, { 3, 0, 10, 1, 2, 3 }, { 0, 0, 0, 0, 0, 0 } };
            Loc l = { i % 2 ? 0x2000u : 0x1000u, i * 0x60 + k * (which == 2 ? 3 : 8), kinds[which][k] };
            v.push_back(l);
        }
    pe_base pe(open_pe(image(pe64, from, true, v), false, false));
    const relocation_table_list l = get_relocations(pe, c.flip("absolute entries"));
    std::vector<Bytes> raw, now; std::vector<uint32_t> va;
    get(pe, raw, va);
    const uint64_t mask = pe64 ? ~0ULL : 0xffffffffULL;
    const int n = 1 + c.choose(mc::tier_pick(3, 5), "length");
    uint64_t cur = from;
    for(int i = 0; i < n; ++i)
    {
        const uint64_t to = pick_base(c, pe64, "to");
        c.desc(" -> %#llx", (unsigned long long)to);
        rebase_image(pe, l, to);
        c.step();
        MC_REQUIRE(c, apply(raw, va, v, (to & mask) - (cur & mask)), "list", "the list does not fit");
        get(pe, now, va);
        compare(c, "after a sequence", now, raw);
        cur = to;
        c.state(mc::mix(cur, mc::hash(now[0])));
    }
    MC_REQUIRE(c, base_of(pe, pe64) == cur, "base", "image base is %#llx", (unsigned long long)base_of(pe, pe64));
    c.outcome(mc::mix(cur, mc::hash(now[0])));
}
// Any number of sections, tables and entries, with one location that does not fit at any place in the list
static void sizes(mc::Ctx& c)
{
    const bool pe64 = c.flip("flavour");
    static const int counts[] = { 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 64, 95 };
    const int mode = c.choose(3, "what"), n = mode == 0 ? c.pick(counts, "sections") : mode == 1 ? 1 : 3, k = mode == 0 ? 0 : c.choose(mc::tier_pick(140, 700), "size");
    ref::Spec s(pe64);
    s.imagebase = 0x10000; s.hdrsize = 0x1400;
    const uint32_t each = mode == 1 ? static_cast<uint32_t>(ref::up(8 * k + 8, 0x200)) : mode == 2 ? 0x1000 * (k / 3 + 1) : 0x200;
    for(int i = 0; i < n; ++i) s.add(std::string("s") + static_cast<char>('0' + i % 10), img::pattern(each - i % 7, 3 + i));
    Locs v;
    const uint32_t kind = pe64 ? 10 : 3;
    // an entry in every section; every entry of a section; an entry in every page
    if(mode == 0) for(int i = 0; i < n; ++i) { Loc l = { s.secs[i].va, 8u * (i % 8), kind }; v.push_back(l); }
    if(mode == 1) for(int i = 0; i < k; ++i) { Loc l = { s.secs[0].va + 0x1000 * (i / 512), 8u * (i % 512), i % 5 == 4 ? 0u : kind }; v.push_back(l); }
    if(mode == 2) for(int i = 0; i < k; ++i) { Loc l = { s.secs[i % 3].va + 0x1000 * (i / 3), 8u * (i % 100), i % 3 == 1 ? 3u : kind }; v.push_back(l); }
    pe_base pe(open_pe(s.build(), false, false));
    const bool join = c.flip("one table per page");
    const int bad = c.choose(4, "a location that does not fit");
    if(bad) { Loc l = { 0xf0000000u, 0, kind }; v.insert(bad == 1 ? v.begin() : bad == 2 ? v.begin() + v.size() / 2 : v.end(), l); }
    c.desc("%s mode %d, %d sections, %zu locations, join %d, bad %d", pe64 ? "PE+" : "PE", mode, n, v.size(), join, bad);
    std::vector<Bytes> raw, now; std::vector<uint32_t> va, va2;
    get(pe, raw, va);
    const Bytes fp = fingerprint(pe);
    const uint64_t to = pe64 ? 0x7fff12340000ULL : 0x7fff0000;
    const relocation_table_list l = tables(v, join);
    const bool fits = apply(raw, va, v, to - 0x10000);
    c.step();
    bool refused = false;
    try { rebase_image(pe, l, to); } catch(const pe_exception&) { refused = true; }
    MC_REQUIRE(c, refused == !fits && fits == !bad, fits ? "refused" : "not-refused", "the list %s", fits ? "fits but is refused" : "names a location outside raw data but is not refused");
    if(refused)
    {
        MC_REQUIRE(c, base_of(pe, pe64) == 0x10000, "refused-base", "the refused list changed the image base");
        c.outcome(mc::mix(1, mc::hash(fp)));
        return;
    }
    get(pe, now, va2);
    MC_REQUIRE(c, base_of(pe, pe64) == to && va == va2, "base", "image base is %#llx", (unsigned long long)base_of(pe, pe64));
    compare(c, "rebased", now, raw);
    rebase_image(pe, l, 0x10000);
    MC_REQUIRE(c, fingerprint(pe) == fp, "back", "rebasing back does not restore the image");
    uint64_t h = to; for(size_t i = 0; i < now.size(); ++i) h = mc::mix(h, mc::hash(now[i]));
    c.outcome(h);
}
namespace mc
{
const Part parts[] = {
    { "rebase", rebase, 0, 0, "all pairs of 5 (7) image bases and all lists of up to 2 locations over 16 places (starts, last fitting and first not fitting, virtual padding, gaps, wrapped addresses) and 5 kinds, given by the caller or read from the directory: exact bytes, refusal, written file, and rebasing back" },
    { "sizes", sizes, 0, 0, "up to 95 sections, 139 (699) entries in a section, 139 (699) pages, without and with one location that does not fit at the beginning, in the middle or at the end" },
    { "histories", histories, 0, 0, "all sequences of up to 3 (5) rebases of images with 24 relocations of one or mixed kinds" },
};
const int part_count = sizeof(parts) / sizeof(parts[0]);
}
