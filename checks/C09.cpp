// C09: address conversions are exact inverses and refuse foreign addresses.
#include "scen.h"
using namespace u;
const char* const mc::check_id = "C09";

static const int layouts = img::kinds + 8;
static ref::Spec layout(int n, bool pe64)
{
    if(n < img::kinds) return img::base(n, pe64);
    ref::Spec s(pe64);
    switch(n - img::kinds)
    {
    case 0: // raw pointers that are not file aligned
        s.add("u", img::pattern(0x200, 1)); s.add("v", img::pattern(0x200, 2));
        s.secs[1].rawptr += 0x10; s.tail = Bytes(0x20, 't'); break;
    case 1: // raw larger than virtual
        s.secalign = 0x200; s.add("a", img::pattern(0x600, 3), 0x150); s.add("b", img::pattern(0x200, 4)); break;
    case 2: // virtual size zero
        s.add("a", img::pattern(0x400, 5)); s.secs[0].vsize = 0; s.add("b", img::pattern(0x20, 6)); break;
    case 3: // raw data in the opposite order
        s.add("a", img::pattern(0x200, 7)); s.add("b", img::pattern(0x400, 8)); s.secs[1].rawptr = 0x400; s.secs[0].rawptr = 0x800; break;
    case 4: // no raw data but a raw pointer
        s.add("a", Bytes(), 0x1000); s.secs[0].rawptr = 0x400; s.add("b", img::pattern(0x200, 9)); s.secs[1].rawptr = 0x400; break;
    case 5: // large file alignment, unaligned pointers
        s.secalign = 0x2000; s.filealign = 0x1000; s.hdrsize = 0x1000; s.add("a", img::pattern(0x1000, 10)); s.add("b", img::pattern(0x800, 11), 0x2001); s.secs[1].rawptr += 0x7ff; s.tail = Bytes(0x800, 't'); break;
    case 6: // high addresses: the image ends close to 4 GB
        s.add("a", img::pattern(0x200, 12)); s.add("b", Bytes(), 0x7fff0000); s.add("c", img::pattern(0x200, 13)); s.add("d", Bytes(), 0x7ff00000); s.add("e", img::pattern(0x100, 14)); break;
    case 7: // first section far away
        s.add("a", img::pattern(0x200, 15)); s.secs[0].va = 0x70000; s.imagesize = 0x71000; break;
    }
    return s;
}
// The mapping of the file, from its section table alone
struct Map
{
    struct R { uint64_t va, vend, off, n; size_t k; };
    std::vector<R> r; uint64_t hdr;
    Map(const ref::Spec& s) : hdr(s.hdrsize)
    {
        for(size_t i = 0; i < s.secs.size(); ++i)
        {
            const ref::Sec& x = s.secs[i];
            const uint64_t vs = ref::up(x.vsize ? x.vsize : x.rawsize, s.secalign);
            uint64_t n = x.rawsize;
            if(ref::up(n, s.filealign) > vs) n = x.vsize;
            R q = { x.va, x.va + vs, x.rawptr, n, i };
            r.push_back(q);
        }
    }
    const R* by_rva(uint64_t a) const { for(size_t i = 0; i < r.size(); ++i) if(a >= r[i].va && a < r[i].vend) return &r[i]; return 0; }
    const R* by_off(uint64_t o) const { for(size_t i = 0; i < r.size(); ++i) if(o >= r[i].off && o < r[i].off + r[i].n) return &r[i]; return 0; }
};
template<typename F> static bool ask(F f, uint64_t& v) { try { v = f(); return true; } catch(const pe_exception&) { return false; } }

static void one_rva(mc::Ctx& c, const pe_base& pe, pe_base& mut, const Map& m, const Bytes& f, uint32_t a)
{
    const section_list& l = pe.get_image_sections();
    const Map::R* r = m.by_rva(a);
    uint64_t v = 0;
    bool ok = ask([&]{ return static_cast<uint64_t>(&pe.section_from_rva(a) - &l[0]); }, v);
    MC_REQUIRE(c, ok == (r != 0) && (!ok || v == r->k), "section-by-rva", "rva %#x: %s section %llu, should be %s section %zu", a, ok ? "found" : "no", static_cast<unsigned long long>(v), r ? "found" : "no", r ? r->k : 0);
    uint64_t w = 0;
    MC_REQUIRE(c, ask([&]{ return static_cast<uint64_t>(&mut.section_from_rva(a) - &mut.get_image_sections()[0]); }, w) == ok && w == v, "section-by-rva", "rva %#x: variants disagree", a);
    MC_REQUIRE(c, ask([&]{ const std::pair<uint32_t, const section*> p = pe.section_and_offset_from_rva(a); return p.first + ((uint64_t)(p.second - &l[0]) << 32); }, w) == ok && (!ok || w == a - r->va + ((uint64_t)r->k << 32)), "section-offset", "rva %#x: section and offset", a);
    // file offset
    uint64_t want = 0; bool exists = false;
    if(a < m.hdr) { want = a; exists = true; }
    else if(r && a - r->va < r->n) { want = r->off + (a - r->va); exists = true; }
    ok = ask([&]{ return pe.rva_to_file_offset(a); }, v);
    MC_REQUIRE(c, ok == exists, exists ? "rva-to-offset-refused" : "rva-to-offset-foreign", "rva %#x: %s, should %s", a, ok ? "converted" : "refused", exists ? "convert" : "be refused");
    if(!ok) return;
    MC_REQUIRE(c, v == want, "rva-to-offset", "rva %#x: file offset %#llx, should be %#llx", a, static_cast<unsigned long long>(v), static_cast<unsigned long long>(want));
    if(a >= m.hdr && r->off % pe.get_file_alignment() == 0) MC_REQUIRE(c, want < f.size() && l[r->k].get_raw_data()[a - static_cast<uint32_t>(r->va)] == f[want], "byte", "rva %#x: byte differs from the file at %#llx", a, static_cast<unsigned long long>(want));
    // and back, where that file byte is not also a header byte or another section's
    const Map::R* q = m.by_off(want);
    if(a < m.hdr || (want >= m.hdr && q == r))
    {
        ok = ask([&]{ return pe.file_offset_to_rva(static_cast<uint32_t>(want)); }, w);
        MC_REQUIRE(c, ok && w == a, "inverse", "rva %#x -> offset %#llx -> rva %#llx (%s)", a, static_cast<unsigned long long>(want), static_cast<unsigned long long>(w), ok ? "converted" : "refused");
    }
}
static void one_offset(mc::Ctx& c, const pe_base& pe, pe_base& mut, const Map& m, uint32_t o)
{
    const section_list& l = pe.get_image_sections();
    const Map::R* r = m.by_off(o);
    uint64_t v = 0, w = 0;
    bool ok = ask([&]{ return static_cast<uint64_t>(&pe.section_from_file_offset(o) - &l[0]); }, v);
    MC_REQUIRE(c, ok == (r != 0) && (!ok || v == r->k), "section-by-offset", "offset %#x: %s section %llu, should be %s", o, ok ? "found" : "no", static_cast<unsigned long long>(v), r ? "found" : "no section");
    MC_REQUIRE(c, ask([&]{ return static_cast<uint64_t>(&mut.section_from_file_offset(o) - &mut.get_image_sections()[0]); }, w) == ok && w == v, "section-by-offset", "offset %#x: variants disagree", o);
    const bool exists = o < m.hdr || r;
    ok = ask([&]{ return pe.file_offset_to_rva(o); }, v);
    const uint64_t want = o < m.hdr ? o : r ? o - r->off + r->va : 0;
    MC_REQUIRE(c, ok == exists && (!ok || v == want), "offset-to-rva", "offset %#x: rva %#llx (%s), should be %#llx (%s)", o, static_cast<unsigned long long>(v), ok ? "converted" : "refused", static_cast<unsigned long long>(want), exists ? "convert" : "refuse");
    if(ok)
    {
        const bool back = ask([&]{ return pe.rva_to_file_offset(static_cast<uint32_t>(v)); }, w);
        MC_REQUIRE(c, back && w == o, "offset-inverse", "offset %#x -> rva %#llx -> offset %#llx (%s)", o, static_cast<unsigned long long>(v), static_cast<unsigned long long>(w), back ? "converted" : "refused");
    }
}
static void near(std::vector<uint32_t>& v, uint64_t x) { for(int d = -2; d <= 2; ++d) v.push_back(static_cast<uint32_t>(x + d)); }
static void offsets(mc::Ctx& c)
{
    const int n = c.choose(layouts, "layout");
    const bool pe64 = c.flip("flavour"), rewritten = c.flip("rewritten");
    ref::Spec s = layout(n, pe64);
    Bytes f = s.build();
    c.desc("%s layout %d%s", pe64 ? "PE+" : "PE", n, rewritten ? " rewritten" : "");
    pe_base pe(open_pe(f));
    if(rewritten)
    {
        f = write_pe(pe);
        s = ref::Img::parse(f).h;
    }
    Map m(s);
    pe_base mut(pe);
    // every address of the image and of the file (boundaries only for huge images), in slices
    uint64_t end = m.hdr, fend = f.size();
    std::vector<uint32_t> edge;
    near(edge, 0); near(edge, m.hdr); near(edge, 0x80000000u); near(edge, fend);
    for(size_t i = 0; i < m.r.size(); ++i) { end = std::max(end, m.r[i].vend); near(edge, m.r[i].va); near(edge, m.r[i].vend); near(edge, m.r[i].va + m.r[i].n); near(edge, m.r[i].off); near(edge, m.r[i].off + m.r[i].n); near(edge, s.secs[i].rawptr); near(edge, s.secs[i].rawptr + s.secs[i].rawsize); }
    const int slice = c.choose(9, "slice");
    c.desc(" slice %d", slice);
    if(slice == 8)
        for(size_t i = 0; i < edge.size(); ++i) { one_rva(c, pe, mut, m, f, edge[i]); one_offset(c, pe, mut, m, edge[i]); c.step(2); }
    else
    {
        const uint64_t top = std::min<uint64_t>(end + 0x100, 0x24000), ftop = fend + 0x100;
        for(uint64_t a = top * slice / 8; a < top * (slice + 1) / 8; ++a) { one_rva(c, pe, mut, m, f, static_cast<uint32_t>(a)); c.step(); }
        for(uint64_t o = ftop * slice / 8; o < ftop * (slice + 1) / 8; ++o) { one_offset(c, pe, mut, m, static_cast<uint32_t>(o)); c.step(); }
    }
    c.outcome(mc::mix(mc::hash(f), slice));
    c.state(mc::mix(mc::hash(f), slice));
    c.trace();
}
// Any number of sections up to the limit
static void many(mc::Ctx& c)
{
    const int n = 1 + c.choose(96, "sections");
    const bool pe64 = c.flip("flavour");
    static const uint32_t al[][2] = { { 0x1000, 0x200 }, { 0x200, 0x200 }, { 0x1000, 0x1000 } };
    const int a = c.choose(3, "alignments"), pat = c.choose(4, "sizes");
    ref::Spec s = scen::many_spec(n, pe64, al[a][0], al[a][1], pat);
    const Bytes f = s.build();
    c.desc("%s %d sections, alignments %#x/%#x, sizes %d", pe64 ? "PE+" : "PE", n, al[a][0], al[a][1], pat);
    pe_base pe(open_pe(f));
    Map m(s);
    pe_base mut(pe);
    std::vector<uint32_t> edge;
    near(edge, m.hdr); near(edge, f.size());
    for(size_t i = 0; i < m.r.size(); ++i) { near(edge, m.r[i].va); near(edge, m.r[i].vend); near(edge, m.r[i].va + m.r[i].n); near(edge, m.r[i].off); near(edge, m.r[i].off + m.r[i].n); }
    for(size_t i = 0; i < edge.size(); ++i) { one_rva(c, pe, mut, m, f, edge[i]); one_offset(c, pe, mut, m, edge[i]); c.step(2); }
    c.outcome(mc::hash(f));
    c.state(mc::hash(f));
    c.trace();
}
// Section headers changed by the caller: what matters is the section as it stands, not as it was read
static void edited(mc::Ctx& c)
{
    const bool pe64 = c.flip("flavour");
    ref::Spec sp(pe64);
    sp.secalign = c.flip("low alignment") ? 0x200 : 0x1000;
    sp.add("a", img::pattern(0x400, 1)); sp.add("b", img::pattern(0x600, 2), 0x2801); sp.add("c", img::pattern(0x200, 3));
    pe_base pe(open_pe(sp.build()));
    section_list& l = pe.get_image_sections();
    const int k = c.choose(3, "section");
    static const uint32_t vs[] = { 0, 1, 0x200, 0x800, 0x1000, 0x1001, 0x2800, 0x3001 };
    static const uint32_t rs[] = { 0, 0x200, 0x201, 0x1200, 0x2000 };
    const int v = c.choose(9, "virtual size"), r = c.choose(6, "size of raw data"), d = c.choose(3, "raw data");
    if(v) l[k].set_virtual_size(vs[v - 1]);
    if(r) l[k].set_size_of_raw_data(rs[r - 1]);
    if(d) l[k].get_raw_data().resize(d == 1 ? 0x1e01 : 0x11);
    const int move = k == 2 ? c.choose(4, "address") : 0;
    static const uint32_t to[] = { 0x100000, 0x7fff0000, 0xfff00000 };
    if(move) l[k].set_virtual_address(to[move - 1]);
    c.desc("%s section %d: virtual size %#x, size of raw data %#x, %zu bytes, at %#x", pe64 ? "PE+" : "PE", k, l[k].get_virtual_size(), l[k].get_size_of_raw_data(), l[k].get_raw_data().size(), l[k].get_virtual_address());
    const pe_base& cpe = pe;
    std::vector<uint32_t> edge;
    near(edge, 0);
    struct R { uint64_t from, to; } range[3];
    for(int i = 0; i < 3; ++i)
    {
        const uint64_t n = ref::up(l[i].get_virtual_size() ? l[i].get_virtual_size() : l[i].get_size_of_raw_data(), sp.secalign);
        range[i].from = l[i].get_virtual_address(); range[i].to = range[i].from + n;
        near(edge, range[i].from); near(edge, range[i].to); near(edge, range[i].from + l[i].get_raw_data().size()); near(edge, range[i].from + l[i].get_size_of_raw_data()); near(edge, range[i].from + sp.secalign);
    }
    for(size_t e = 0; e < edge.size(); ++e)
    {
        const uint32_t a = edge[e];
        const uint64_t va = cpe.get_image_base_64() + a;
        // ranges may overlap now: any section that contains the address is an answer
        bool some = false;
        for(int i = 0; i < 3; ++i) some = some || (a >= range[i].from && a < range[i].to);
        uint64_t got[6]; bool ok[6];
        ok[0] = ask([&]{ return static_cast<uint64_t>(&cpe.section_from_rva(a) - &l[0]); }, got[0]);
        ok[1] = ask([&]{ return static_cast<uint64_t>(&pe.section_from_rva(a) - &l[0]); }, got[1]);
        ok[2] = ask([&]{ return static_cast<uint64_t>(&cpe.section_from_va(va) - &l[0]); }, got[2]);
        ok[3] = ask([&]{ return static_cast<uint64_t>(&pe.section_from_va(va) - &l[0]); }, got[3]);
        uint32_t off = 0;
        ok[4] = ask([&]{ const std::pair<uint32_t, const section*> p = cpe.section_and_offset_from_rva(a); off = p.first; return static_cast<uint64_t>(p.second - &l[0]); }, got[4]);
        ok[5] = ask([&]{ const std::pair<uint32_t, const section*> p = pe.section_and_offset_from_rva(a); return static_cast<uint64_t>(p.second - &l[0]); }, got[5]);
        for(int q = 0; q < 6; ++q)
        {
            MC_REQUIRE(c, ok[q] == some, "edited-lookup", "rva %#x: lookup %d %s", a, q, ok[q] ? "found a section" : "found no section");
            MC_REQUIRE(c, !some || (got[q] < 3 && got[q] == got[0] && a >= range[got[q]].from && a < range[got[q]].to), "edited-lookup", "rva %#x: lookup %d found section %llu, the first lookup section %llu", a, q, static_cast<unsigned long long>(got[q]), static_cast<unsigned long long>(got[0]));
        }
        if(some) MC_REQUIRE(c, off == a - range[got[0]].from, "edited-offset", "rva %#x: offset %#x in section", a, off);
        c.step(6);
    }
    c.outcome(mc::mix(mc::mix(mc::mix(v, r), mc::mix(k, d)), move));
    c.state(mc::hash(fingerprint(pe)));
    c.trace();
}
// The section of a data directory is the section its address lies in
static void directories(mc::Ctx& c)
{
    const int n = c.choose(layouts, "layout");
    const bool pe64 = c.flip("flavour");
    const ref::Spec s = layout(n, pe64);
    const unsigned id = c.choose(18, "directory"), count = c.choose(3, "number of directories");
    pe_base pe(open_pe(s.build()));
    const Map m(s);
    if(count) pe.set_number_of_rvas_and_sizes(count == 1 ? 3 : 15);
    const uint32_t have = pe.get_number_of_rvas_and_sizes();
    c.desc("%s layout %d, directory %u of %u", pe64 ? "PE+" : "PE", n, id, have);
    std::vector<uint32_t> edge;
    near(edge, 0); near(edge, m.hdr);
    for(size_t i = 0; i < m.r.size(); ++i) { near(edge, m.r[i].va); near(edge, m.r[i].vend); near(edge, m.r[i].va + m.r[i].n); }
    for(unsigned i = 0; i < have; ++i) { pe.set_directory_rva(i, 0xfffffff0); pe.set_directory_size(i, 0x20); }
    const pe_base& cpe = pe;
    for(size_t e = 0; e < edge.size(); ++e) for(int z = 0; z < 2; ++z)
    {
        if(id < have) { pe.set_directory_rva(id, edge[e]); pe.set_directory_size(id, z ? 0 : 0x10); }
        const Map::R* r = id < have ? m.by_rva(edge[e]) : 0;
        uint64_t v = 0, w = 0;
        const bool ok = ask([&]{ return static_cast<uint64_t>(&cpe.section_from_directory(id) - &cpe.get_image_sections()[0]); }, v);
        MC_REQUIRE(c, ok == (r != 0) && (!ok || v == r->k), "section-by-directory", "directory at %#x: %s section %llu, should be %s", edge[e], ok ? "found" : "no", static_cast<unsigned long long>(v), r ? "found" : "no section");
        MC_REQUIRE(c, ask([&]{ return static_cast<uint64_t>(&pe.section_from_directory(id) - &pe.get_image_sections()[0]); }, w) == ok && w == v, "section-by-directory", "directory at %#x: variants disagree", edge[e]);
        c.step(2);
    }
    c.outcome(mc::mix(mc::mix(n, id), have));
    c.state(mc::hash(fingerprint(pe)));
    c.trace();
}
// Raw pointers that are not file aligned are rounded down when the file is read
static void unaligned(mc::Ctx& c)
{
    const bool pe64 = c.flip("flavour");
    const int n = img::kinds + 5 * c.choose(2, "layout");
    const ref::Spec s = layout(n, pe64);
    const Bytes f = s.build();
    pe_base pe(open_pe(f));
    const section& x = pe.get_image_sections()[1];
    static const uint32_t d[] = { 0, 1, 0x100, 0x1ef };
    const uint32_t k = c.pick(d, "position");
    c.desc("%s layout %d position %#x", pe64 ? "PE+" : "PE", n, k);
    c.outcome(mc::mix(n, k));
    c.state(mc::mix(n, k));
    c.step();
    const uint32_t o = pe.rva_to_file_offset(x.get_virtual_address() + k);
    MC_REQUIRE(c, static_cast<const section&>(x).get_raw_data()[k] == f[o], "byte-unaligned", "rva_to_file_offset names file byte %#x for a section whose raw pointer %#x is not file aligned, the section was read from %#llx", o, x.get_pointer_to_raw_data(), static_cast<unsigned long long>(ref::down(x.get_pointer_to_raw_data(), pe.get_file_alignment())));
}
// Virtual addresses: every pairing of boundary bases and addresses, against 128-bit arithmetic
static void bases(mc::Ctx& c)
{
    const bool pe64 = c.flip("flavour");
    static const uint64_t bs[] = { 0, 1, 0x10000, 0x400000, 0x7fffffff, 0x80000000, 0xffff0000, 0xfffff000, 0xffffffff, 0x100000000ULL, 0x140000000ULL, 0x7fffffff0000ULL, 0x8000000000000000ULL, 0xffffffff00000000ULL, 0xffffffffffff0000ULL, 0xffffffffffffffffULL };
    const uint64_t base = c.pick(bs, "base");
    if(!pe64 && base > 0xffffffff) return;
    pe_base pe(open_pe(img::base(img::k_plain, pe64).build()));
    if(base <= 0xffffffff && c.flip("32-bit setter")) pe.set_image_base(static_cast<uint32_t>(base)); else pe.set_image_base_64(base);
    c.desc("%s base %#llx", pe64 ? "PE+" : "PE", static_cast<unsigned long long>(base));
    MC_REQUIRE(c, pe.get_image_base_64() == base, "base", "image base reads back %#llx", static_cast<unsigned long long>(pe.get_image_base_64()));
    std::vector<uint64_t> as;
    static const uint64_t k[] = { 0, 0x1000, 0x1fff, 0x2000, 0x3000, 0x4000, 0x10000, 0x400000, 0x80000000, 0xffff0000, 0xffffffff, 0x100000000ULL };
    for(size_t i = 0; i < sizeof(k) / sizeof(k[0]); ++i) for(int d = -2; d <= 2; ++d) { as.push_back(k[i] + d); as.push_back(base + k[i] + d); as.push_back(base - k[i] + d); }
    typedef unsigned __int128 u128;
    for(size_t i = 0; i < as.size(); ++i)
    {
        const uint64_t a = as[i];
        uint64_t v = 0;
        // va -> rva
        const bool exists = a >= base && a - base <= 0xffffffff;
        bool ok = ask([&]{ return pe.va_to_rva(a); }, v);
        MC_REQUIRE(c, ok == exists && (!ok || v == a - base), "va-to-rva", "va %#llx: %s %#llx", static_cast<unsigned long long>(a), ok ? "converted to" : "refused", static_cast<unsigned long long>(v));
        MC_REQUIRE(c, ask([&]{ return pe.va_to_rva(a, false); }, v) && v == static_cast<uint32_t>(a - base), "va-to-rva-unchecked", "va %#llx without bound check: %#llx", static_cast<unsigned long long>(a), static_cast<unsigned long long>(v));
        if(a <= 0xffffffff)
        {
            ok = ask([&]{ return pe.va_to_rva(static_cast<uint32_t>(a)); }, v);
            MC_REQUIRE(c, ok == exists && (!ok || v == a - base), "va-to-rva-32", "va %#llx: %s %#llx", static_cast<unsigned long long>(a), ok ? "converted to" : "refused", static_cast<unsigned long long>(v));
        }
        // rva -> va
        if(a <= 0xffffffff)
        {
            const uint32_t r = static_cast<uint32_t>(a);
            const u128 sum = static_cast<u128>(r) + base;
            ok = ask([&]{ return pe.rva_to_va_64(r); }, v);
            MC_REQUIRE(c, ok == (sum <= ~0ULL) && (!ok || v == static_cast<uint64_t>(sum)), "rva-to-va", "rva %#x: %s %#llx", r, ok ? "converted to" : "refused", static_cast<unsigned long long>(v));
            uint64_t t = 0;
            MC_REQUIRE(c, ask([&]{ uint64_t x; pe.rva_to_va(r, x); return x; }, t) == ok && (!ok || t == v), "rva-to-va", "variants disagree");
            if(ok) { uint64_t b; MC_REQUIRE(c, ask([&]{ return pe.va_to_rva(v); }, b) && b == r, "va-inverse", "rva %#x -> va %#llx -> rva %#llx", r, static_cast<unsigned long long>(v), static_cast<unsigned long long>(b)); }
            ok = ask([&]{ return pe.rva_to_va_32(r); }, v);
            MC_REQUIRE(c, ok == (sum <= 0xffffffff) && (!ok || v == static_cast<uint64_t>(sum)), "rva-to-va-32", "rva %#x: %s %#llx", r, ok ? "converted to" : "refused", static_cast<unsigned long long>(v));
            MC_REQUIRE(c, ask([&]{ uint32_t x; pe.rva_to_va(r, x); return x; }, t) == ok && (!ok || t == v), "rva-to-va-32", "variants disagree");
        }
        // sections by virtual address
        const section_list& l = static_cast<const pe_base&>(pe).get_image_sections();
        int want = -1;
        if(exists) for(size_t q = 0; q < l.size(); ++q) if(a - base >= l[q].get_virtual_address() && a - base < static_cast<uint64_t>(l[q].get_virtual_address()) + l[q].get_aligned_virtual_size(0x1000)) want = static_cast<int>(q);
        ok = ask([&]{ return static_cast<uint64_t>(&static_cast<const pe_base&>(pe).section_from_va(a) - &l[0]); }, v);
        MC_REQUIRE(c, ok == (want >= 0) && (!ok || v == static_cast<uint64_t>(want)), "section-by-va", "va %#llx: section %lld, should be %d", static_cast<unsigned long long>(a), ok ? static_cast<long long>(v) : -1, want);
        { uint64_t t; MC_REQUIRE(c, ask([&]{ return static_cast<uint64_t>(&pe.section_from_va(a) - &pe.get_image_sections()[0]); }, t) == ok && (!ok || t == v), "section-by-va", "va %#llx: variants disagree", static_cast<unsigned long long>(a)); }
        if(a <= 0xffffffff)
        {
            uint64_t t;
            MC_REQUIRE(c, ask([&]{ return static_cast<uint64_t>(&static_cast<const pe_base&>(pe).section_from_va(static_cast<uint32_t>(a)) - &l[0]); }, t) == ok && (!ok || t == v), "section-by-va-32", "va %#llx: const variants disagree", static_cast<unsigned long long>(a));
            MC_REQUIRE(c, ask([&]{ return static_cast<uint64_t>(&pe.section_from_va(static_cast<uint32_t>(a)) - &pe.get_image_sections()[0]); }, t) == ok && (!ok || t == v), "section-by-va-32", "va %#llx: variants disagree", static_cast<unsigned long long>(a));
        }
        c.step(8);
    }
    // from a position inside a section
    const section_list& l = static_cast<const pe_base&>(pe).get_image_sections();
    static const uint32_t d[] = { 0, 1, 0x1fff, 0x80000000, 0xfffff000 - 1, 0xfffff000, 0xffffffff };
    for(size_t i = 0; i < sizeof(d) / sizeof(d[0]); ++i) for(size_t q = 0; q < l.size(); ++q)
    {
        uint64_t v = 0;
        const uint64_t sum = static_cast<uint64_t>(l[q].get_virtual_address()) + d[i];
        const bool ok = ask([&]{ return pe.rva_from_section_offset(l[q], d[i]); }, v);
        MC_REQUIRE(c, ok == (sum <= 0xffffffff) && (!ok || v == sum), "section-offset-to-rva", "section %zu offset %#x: %s %#llx", q, d[i], ok ? "rva" : "refused", static_cast<unsigned long long>(v));
    }
    c.outcome(mc::mix(base, pe64));
    c.state(mc::mix(base, pe64));
    c.trace();
}
namespace mc
{
const Part parts[] = {
    { "offsets", offsets, 0, 0, "18 layouts x 2 flavours, as laid out and as rewritten: every rva and every file offset of the image (boundaries for images near 4 GB), all lookups and conversions and their inverses against the section table of the file" },
    { "many-sections", many, 0, 0, "1 to 96 sections x 2 flavours x 3 alignments x 4 patterns of sizes: every boundary of every section" },
    { "edited", edited, 0, 0, "3 sections x 2 alignments x 9 virtual sizes x 6 sizes of raw data x 3 lengths of data (x 4 addresses of the last section), set by the caller through the section: the six section lookups agree and find a section whose range contains the address, at every boundary" },
    { "directories", directories, 0, 0, "18 layouts x 2 flavours x 18 directory numbers x 3 directory counts: the section found for a directory is the one its address lies in, at every boundary; directories that do not exist are refused" },
    { "unaligned", unaligned, 0, 0, "raw pointers that are not file aligned: the byte at the converted offset is the byte that was read" },
    { "bases", bases, 0, 0, "16 image bases x all boundary addresses relative to the base and absolute, against 128-bit arithmetic" },
};
const int part_count = sizeof(parts) / sizeof(parts[0]);
}
