// C16: rebuilt relocations read back unchanged.
#include "reb.h"
using namespace u;
const char* const mc::check_id = "C16";

struct Ent { uint32_t off, kind; };
struct Tab { uint32_t page; std::vector<Ent> e; };
typedef std::vector<Tab> Tabs;

static Tabs from_library(const relocation_table_list& l)
{
    Tabs r;
    for(size_t i = 0; i < l.size(); ++i)
    {
        Tab t; t.page = l[i].get_rva();
        const relocation_table::relocation_list& e = l[i].get_relocations();
        for(size_t k = 0; k < e.size(); ++k) { Ent x = { e[k].get_rva(), e[k].get_type() }; t.e.push_back(x); }
        r.push_back(t);
    }
    return r;
}
static relocation_table_list to_library(const Tabs& v)
{
    relocation_table_list r;
    for(size_t i = 0; i < v.size(); ++i)
    {
        relocation_table t(i % 2 ? v[i].page : 0); t.set_rva(v[i].page);
        for(size_t k = 0; k < v[i].e.size(); ++k)
        {
            if(k % 2) t.add_relocation(relocation_entry(static_cast<uint16_t>(v[i].e[k].off), static_cast<uint16_t>(v[i].e[k].kind)));
            else { relocation_entry e; e.set_rva(static_cast<uint16_t>(v[i].e[k].off)); e.set_type(static_cast<uint16_t>(v[i].e[k].kind)); t.get_relocations().push_back(e); }
        }
        r.push_back(t);
    }
    return r;
}
static void same(mc::Ctx& c, const char* who, const Tabs& got, const Tabs& want)
{
    MC_REQUIRE(c, got.size() == want.size(), "tables", "%s finds %zu tables, should find %zu", who, got.size(), want.size());
    for(size_t i = 0; i < got.size(); ++i)
    {
        MC_REQUIRE(c, got[i].page == want[i].page, "page", "%s: table %zu is for %#x, should be for %#x", who, i, got[i].page, want[i].page);
        MC_REQUIRE(c, got[i].e.size() == want[i].e.size(), "entries", "%s: table %zu has %zu entries, should have %zu", who, i, got[i].e.size(), want[i].e.size());
        for(size_t k = 0; k < got[i].e.size(); ++k)
            MC_REQUIRE(c, got[i].e[k].off == want[i].e[k].off && got[i].e[k].kind == want[i].e[k].kind, "entry", "%s: entry %zu of table %zu is %#x kind %u, should be %#x kind %u", who, k, i, got[i].e[k].off, got[i].e[k].kind, want[i].e[k].off, want[i].e[k].kind);
    }
}
// What a loader finds: blocks that fill the directory exactly
static Tabs read(mc::Ctx& c, const ref::Mem& m, uint32_t rva, uint32_t size)
{
    Tabs r;
    uint32_t at = 0;
    while(at < size)
    {
        MC_REQUIRE(c, (rva + at) % 4 == 0, "alignment", "block at %#x", rva + at);
        Tab t; t.page = m.r32(rva + at);
        const uint32_t n = m.r32(rva + at + 4);
        MC_REQUIRE(c, n >= 8 && n % 4 == 0 && n <= size - at, "block-size", "block at %#x+%#x has size %#x, directory has %#x", rva, at, n, size);
        for(uint32_t k = 8; k < n; k += 2) { const uint32_t w = m.r16(rva + at + k); Ent x = { w & 0xfff, w >> 12 }; t.e.push_back(x); }
        at += n;
        r.push_back(t);
    }
    return r;
}
static uint64_t hash_of(const Tabs& v)
{
    uint64_t h = v.size();
    for(size_t i = 0; i < v.size(); ++i) { h = mc::mix(h, v[i].page); for(size_t k = 0; k < v[i].e.size(); ++k) h = mc::mix(h, v[i].e[k].off * 16 + v[i].e[k].kind); }
    return h;
}
struct Set { uint32_t off; bool hdr, strip; };
static uint64_t need(const Tabs& v) { uint64_t n = 0; for(size_t i = 0; i < v.size(); ++i) n += 8 + ref::up(2 * v[i].e.size(), 4); return n; }
static void rebuild_and_check(mc::Ctx& c, pe_base& pe, size_t at, const Tabs& list, const Set& st)
{
    reb::Snap before = reb::snap(pe);
    c.step();
    const image_directory dir = rebuild_relocations(pe, to_library(list), pe.get_image_sections()[at], st.off, st.hdr, st.strip);
    const uint32_t va = pe.get_image_sections()[at].get_virtual_address();
    MC_REQUIRE(c, dir.get_rva() == va + ref::up(st.off, 4) && dir.get_size() == need(list), "directory", "directory is %#x+%#x", dir.get_rva(), dir.get_size());
    reb::inside_section(c, pe, at, dir);
    reb::untouched(c, pe, before, at, dir.get_rva() - va, dir.get_rva() - va + dir.get_size());
    if(st.hdr)
    {   // an image with relocations can be moved
        ref::put16(before.hdr, 22, ref::get16(before.hdr, 22) & ~1); ref::put16(before.hdr, 94, ref::get16(before.hdr, 94) | 0x40);
    }
    reb::headers_kept(c, pe, before, st.hdr ? 5 : -1, dir.get_rva(), dir.get_size());
    Tabs padded = list, plain = list;
    for(size_t i = 0; i < list.size(); ++i)
    {
        if(list[i].e.size() % 2) { Ent x = { 0, 0 }; padded[i].e.push_back(x); }
        plain[i].e.clear();
        for(size_t k = 0; k < list[i].e.size(); ++k) if(list[i].e[k].kind) plain[i].e.push_back(list[i].e[k]);
    }
    same(c, "reader", read(c, mem_of(pe), dir.get_rva(), dir.get_size()), padded);
    if(!st.hdr) { pe.set_directory_rva(5, dir.get_rva()); pe.set_directory_size(5, dir.get_size()); }
    same(c, "library", from_library(get_relocations(pe)), plain);
    same(c, "library (all)", from_library(get_relocations(pe, true)), padded);
    const Bytes f = write_pe(pe);
    const ref::Img im = ref::Img::parse(f);
    MC_REQUIRE(c, im.h.dirs[5].rva == dir.get_rva() && im.h.dirs[5].size == dir.get_size(), "written-directory", "written directory differs");
    same(c, "reader (written)", read(c, ref::Mem::map(im), dir.get_rva(), dir.get_size()), padded);
    pe_base q(open_pe(f, false, false));
    same(c, "library (reopened)", from_library(get_relocations(q, false)), plain);
    same(c, "library (reopened, all)", from_library(get_relocations(q, true)), padded);
    // rebuilding what was read gives the same lists once more
    const Tabs again = from_library(get_relocations(q, true));
    const image_directory d2 = rebuild_relocations(q, get_relocations(q, true), q.get_image_sections()[at], st.off, true, st.strip);
    MC_REQUIRE(c, d2.get_rva() == dir.get_rva() && d2.get_size() == dir.get_size(), "again", "rebuilding again gives %#x+%#x", d2.get_rva(), d2.get_size());
    same(c, "library (rebuilt again)", from_library(get_relocations(q, true)), again);
    c.outcome(mc::mix(hash_of(list), dir.get_size()));
    c.trace();
}
static void lists(mc::Ctx& c)
{
    const bool pe64 = c.flip("flavour");
    std::unique_ptr<pe_base> pe;
    const int lay = c.dev(reb::layouts, "layout");
    Set st;
    static const uint32_t offs[] = { 0, 3, 0x101, 0x1fe };
    st.off = offs[c.dev(4, "offset")]; st.hdr = !c.dev(2, "headers"); st.strip = !c.dev(2, "strip");
    const size_t at = reb::layout(c, pe, lay, pe64);
    if(c.dev(2, "flags")) { pe->set_characteristics_flags(1); pe->set_dll_characteristics(0x8000); }
    c.desc(" off=%#x hdr=%d strip=%d:", st.off, st.hdr, st.strip);
    static const uint32_t pages[] = { 0x1000, 0, 0xfffff000, 0x12345678 };
    static const uint32_t offsets[] = { 0, 0xfff, 0x804 };
    static const uint32_t kinds[] = { 3, 10, 0, 15 };
    const int n = c.choose(3, "tables");
    const int most = mc::tier_pick(2, c.devs_left() == c.dev_budget ? 3 : 2);
    Tabs v;
    for(int i = 0; i < n; ++i)
    {
        Tab t; t.page = pages[c.choose(i ? 2 : 4, "page")];
        const int k = c.choose(i ? 2 : most + 1, "entries");
        for(int j = 0; j < k; ++j) { Ent x; x.off = offsets[c.choose(3, "offset")]; x.kind = kinds[c.choose(4, "kind")]; t.e.push_back(x); c.desc(" %#x+%#x:%u", t.page, x.off, x.kind); }
        if(!k) c.desc(" %#x+none", t.page);
        v.push_back(t);
    }
    rebuild_and_check(c, *pe, at, v, st);
}
// Numbers of tables and entries, in sections with and without room
static void sizes(mc::Ctx& c)
{
    const bool pe64 = c.flip("flavour");
    const int lay = c.choose(6, "layout"), mode = c.choose(3, "what"), k = c.choose(mc::tier_pick(300, 2100), "size");
    std::unique_ptr<pe_base> pe;
    const size_t at = reb::layout(c, pe, lay == 5 ? reb::big_dirty : lay, pe64);
    Tabs v;
    const int tabs = mode == 0 ? 1 : mode == 1 ? k : k / 10 + 1;
    for(int i = 0; i < tabs; ++i)
    {
        Tab t; t.page = 0x1000 * (i + 1);
        const int m = mode == 0 ? k * 2 + 1 : mode == 1 ? i % 3 : k % 10 + i % 4;
        for(int j = 0; j < m; ++j) { Ent x = { uint32_t(j * 5) & 0xfff, uint32_t(1 + j % 11) }; t.e.push_back(x); }
        v.push_back(t);
    }
    c.desc(" mode %d size %d", mode, k);
    Set st = { uint32_t(mode == 2 ? k % 5 : 0), true, true };
    const Bytes fp = fingerprint(*pe);
    try { rebuild_and_check(c, *pe, at, v, st); }
    catch(const pe_exception& e)
    {
        MC_REQUIRE(c, lay == 1 && e.get_id() == pe_exception::insufficient_space, "refused", "refused: %s", e.what());
        reb::unchanged(c, *pe, fp, "the list that does not fit");
        MC_REQUIRE(c, need(v) + ref::up(st.off, 4) + 4 > 0x600, "refused-room", "%llu bytes are refused in a section of 0x600", (unsigned long long)need(v));
        c.outcome(2);
    }
}
// Tables and lists as long as 16-bit and 64 KB limits
static void longer(mc::Ctx& c)
{
    static const uint32_t counts[] = { 4091, 4092, 4093, 16379, 16380, 16381, 32759, 32760, 32761, 32762, 32763, 32764, 32765, 32766, 32767, 32768, 65534, 65535, 65536, 65537, 100000 };
    const bool pe64 = c.flip("flavour");
    const int lay = c.flip("layout") ? 2 : 0, n = c.choose(21, "entries"), tabs = 1 + c.choose(3, "tables");
    std::unique_ptr<pe_base> pe;
    const size_t at = reb::layout(c, pe, lay, pe64);
    Tabs v;
    for(int i = 0; i < tabs; ++i)
    {
        Tab t; t.page = 0x1000 * (i + 1);
        for(uint32_t j = 0; j < (i == 1 ? 3 : counts[n]); ++j) { Ent x = { (j * 5) & 0xfff, 1 + j % 11 }; t.e.push_back(x); }
        v.push_back(t);
    }
    c.desc(" %u entries in table 1 of %d", counts[n], tabs);
    Set st = { uint32_t(n % 5), true, true };
    rebuild_and_check(c, *pe, at, v, st);
}
// Items are a kind and an offset
static void items(mc::Ctx& c)
{
    const uint32_t w = c.choose(256, "high") * 256 + c.choose(256, "low");
    relocation_entry a(static_cast<uint16_t>(w)), b, d(static_cast<uint16_t>(w & 0xfff), static_cast<uint16_t>(w >> 12));
    b.set_item(static_cast<uint16_t>(w));
    c.step(3); c.outcome(w);
    MC_REQUIRE(c, a.get_rva() == (w & 0xfff) && a.get_type() == w >> 12 && a.get_item() == w, "item", "constructor: %#x", w);
    MC_REQUIRE(c, b.get_rva() == (w & 0xfff) && b.get_type() == w >> 12 && b.get_item() == w, "item", "set_item: %#x", w);
    MC_REQUIRE(c, d.get_rva() == (w & 0xfff) && d.get_type() == w >> 12 && d.get_item() == w, "item", "two parts: %#x", w);
}
namespace mc
{
const Part parts[] = {
    { "lists", lists, 1, 2, "all lists of up to 2 tables over 4 pages with up to 2 (3) and 1 entries over 3 offsets and 4 kinds, with up to 1 (2) settings changed (9 layouts, offsets, header update, stripping, image flags); read by a loader-style reader and by the library, before and after writing, and rebuilt once more" },
    { "sizes", sizes, 0, 0, "0..299 (0..2099) tables or entries in 6 layouts, refused only when they do not fit" },
    { "long", longer, 0, 0, "21 lengths of a table at 8 KB, 32 KB, 64 KB, 128 KB and 200000 bytes, alone, before a short one, and around it" },
    { "items", items, 0, 0, "all 65536 relocation items" },
};
const int part_count = sizeof(parts) / sizeof(parts[0]);
}
