// A bounded space of images: opened from reference files or built from scratch, then edited through the public interface.
#pragma once
#include "util.h"
#include "images.h"

namespace scen
{
using namespace u;

enum { sources = img::kinds + 6, edits = 24 };

// Bound import descriptors (one module, one terminator) with the name behind them
inline Bytes bound_blob()
{
    Bytes b;
    ref::app32(b, 0x11223344); ref::app16(b, 16); ref::app16(b, 0);
    ref::app32(b, 0); ref::app32(b, 0);
    b += Bytes("mod.dll\0", 8);
    return b;
}
// One of the sources; both flavours
inline std::unique_ptr<pe_base> source(int n, bool pe64, Bytes* file = 0)
{
    if(n < img::kinds)
    {
        const Bytes b = img::base(n, pe64).build();
        if(file) *file = b;
        return std::unique_ptr<pe_base>(new pe_base(open_pe(b)));
    }
    n -= img::kinds;
    if(n == 0)
    {
        // bound imports inside the headers, as some compilers place them
        ref::Spec s = img::base(img::k_plain, pe64);
        s.hdrsize = 0x600;
        s.secs[0].rawptr += 0x200; s.secs[1].rawptr += 0x200; s.secs[2].rawptr += 0x200;
        const Bytes bi = bound_blob();
        s.dirs[11].rva = s.secs_off() + 40 * 3; s.dirs[11].size = static_cast<uint32_t>(bi.size());
        Bytes b = s.build();
        ref::putstr(b, s.dirs[11].rva, bi);
        if(file) *file = b;
        return std::unique_ptr<pe_base>(new pe_base(open_pe(b)));
    }
    if(n == 5)
    {
        // raw sizes beyond the virtual size, unused header fields set
        ref::Spec s(pe64);
        s.secalign = s.filealign = 0x200; s.win32ver = 0x5566; s.loaderflags = 0x77;
        s.add("a", img::pattern(0x600, 26), 0x150); s.secs[0].nrel = 3; s.secs[0].relptr = 0x1111; s.secs[0].lineptr = 0x2222; s.secs[0].nline = 4;
        s.add("b", img::pattern(0x200, 27));
        s.dos = img::pattern(58, 28);
        const Bytes b = s.build();
        if(file) *file = b;
        return std::unique_ptr<pe_base>(new pe_base(open_pe(b)));
    }
    std::unique_ptr<pe_base> p(new pe_base(fresh(pe64, n == 1 ? 0x200 : n == 2 ? 0x4000 : 0x1000, n == 3)));
    if(n == 1) add_sec(*p, "one", img::pattern(0x1ff, 21));
    if(n == 2) { add_sec(*p, "one", img::pattern(0x201, 22), 0x4001); add_sec(*p, "two", Bytes(), 5); add_sec(*p, "three", img::pattern(1, 23)); }
    if(n == 3) { add_sec(*p, "eightchr", img::pattern(0x400, 24)); add_sec(*p, "", img::pattern(3, 25)); }
    return p;
}
inline bool edit(pe_base& pe, int e)
{
    section_list& l = pe.get_image_sections();
    switch(e)
    {
    case 0: return true;
    case 1: add_sec(pe, "new", img::pattern(0x123, 31)); return true;
    case 2: add_sec(pe, "newbss", Bytes(), 0x1800); return true;
    case 3: { section s; s.set_name("noauto"); s.set_raw_data(img::pattern(0x211, 32)); pe.add_section(s, false); return true; }
    case 4: pe.set_stub_overlay("x"); return true;
    case 5: pe.set_stub_overlay(img::pattern(6, 33)); return true;
    case 6: pe.set_stub_overlay(img::pattern(0x153, 34)); return true;
    case 7: pe.strip_stub_overlay(); return true;
    case 8: pe.fill_stub_overlay('f'); return true;
    case 9: pe.strip_data_directories(0); return true;
    case 10: pe.set_number_of_rvas_and_sizes(16); return true;
    case 11: if(pe.get_section_alignment() < 0x400) return false; pe.set_file_alignment(0x400); return true;
    case 12: if(pe.get_section_alignment() < 0x1000) return false; pe.realign_file(0x1000); return true;
    case 13: if(pe.get_section_alignment() < 0x200) return false; pe.realign_file(0x200); return true;
    case 14:
        pe.set_ep(0x1234); pe.set_os_version(6, 3); pe.set_subsystem_version(6, 2); pe.set_subsystem(2); pe.set_dll_characteristics(0x4321);
        pe.set_machine(0x1c0); pe.set_time_date_stamp(0xdeadbeef); pe.set_checksum(0x76543210); pe.set_characteristics(0x0f0e);
        return true;
    case 15:
        pe.set_image_base_64(pe.get_pe_type() == pe_type_64 ? 0x123456780000ULL : 0x7fff0000);
        pe.set_heap_size_commit(uint32_t(0x11000)); pe.set_heap_size_reserve(uint32_t(0x22000)); pe.set_stack_size_commit(uint32_t(0x33000)); pe.set_stack_size_reserve(uint32_t(0x44000));
        return true;
    case 16: if(l.empty() || l.back().get_virtual_address() == 0) return false; l.back().get_raw_data() += img::pattern(0x77, 35); pe.recalculate_section_sizes(l.back(), true); return true;
    case 17: if(l.empty() || l.back().get_raw_data().size() < 2) return false; l.back().get_raw_data().resize(l.back().get_raw_data().size() / 2); pe.recalculate_section_sizes(l.back(), false); return true;
    case 18: if(l.empty()) return false; l[0].set_name("renamed!"); l[0].set_characteristics(0x12345678); return true;
    case 19: if(pe.get_number_of_rvas_and_sizes() < 3) return false; pe.set_directory_rva(1, 0x1010); pe.set_directory_size(1, 0x99); pe.remove_directory(2); return true;
    case 20: if(l.empty()) return false; pe.set_section_virtual_size(l.back(), 0x5001); return true;
    case 21: if(l.empty()) return false; l[0].get_virtual_data(pe.get_section_alignment()); return true;
    case 22: pe.set_base_of_code(0x77); return true;
    case 23: pe.strip_data_directories(4); return true;
    }
    return false;
}
inline const char* edit_name(int e)
{
    static const char* const n[] = { "-", "add", "addbss", "addnoauto", "stub1", "stub6", "stub153", "stripstub", "fillstub", "stripdirs0", "dirs16", "fa400", "realign1000", "realign200",
        "setters1", "setters2", "append", "shrink", "rename", "setdir", "vsize", "virtview", "baseofcode", "stripdirs4" };
    return n[e];
}
// Picks an image with up to `depth` edits
inline std::unique_ptr<pe_base> make(mc::Ctx& c, int depth, Bytes* file = 0)
{
    const int n = c.choose(sources, "source");
    const bool pe64 = c.flip("flavour");
    std::unique_ptr<pe_base> p = source(n, pe64, file);
    c.desc("%s source %d", pe64 ? "PE+" : "PE", n);
    for(int i = 0; i < depth; ++i)
    {
        const int e = c.choose(edits, "edit");
        c.desc(" %s", edit_name(e));
        if(!edit(*p, e)) break;
        c.step();
        if(e == 0) break;
    }
    return p;
}
// Images with up to `most` sections, read from a file, added one by one, or both
inline ref::Spec many_spec(int n, bool pe64, uint32_t salign, uint32_t falign, int pat)
{
    ref::Spec s(pe64);
    s.secalign = salign; s.filealign = falign;
    s.hdrsize = static_cast<uint32_t>(ref::up(s.secs_off() + 40 * (n + 1), falign));
    s.imagesize = static_cast<uint32_t>(ref::up(s.hdrsize, salign));
    for(int i = 0; i < n; ++i)
    {
        static const unsigned sizes[4][5] = { { 0x200, 0, 1, 0x123, 0x400 }, { 0, 0, 0, 0x201, 0 }, { 1, 1, 1, 1, 1 }, { 0x1ff, 0x1001, 0x200, 0x10, 0 } };
        const unsigned z = sizes[pat][i % 5];
        char nm[9];
        snprintf(nm, sizeof(nm), ".s%d", i * 37);
        s.add(nm, img::pattern(z, static_cast<unsigned>(30 + i)), z ? (i % 3 == 2 ? z + salign : 0) : 0x80 + i, 0x40000040u | (static_cast<uint32_t>(i) << 25));
    }
    return s;
}
inline std::unique_ptr<pe_base> many(mc::Ctx& c, int most, Bytes* file = 0)
{
    const int n = c.choose(most + 1, "sections");
    const bool pe64 = c.flip("flavour");
    static const uint32_t al[][2] = { { 0x1000, 0x200 }, { 0x200, 0x200 }, { 0x1000, 0x1000 } };
    const int a = c.choose(mc::tier_pick(2, 3), "alignments"), pat = c.choose(mc::tier_pick(2, 4), "sizes"), how = c.choose(3, "how");
    c.desc("%s %d sections, alignments %#x/%#x, sizes %d, %s", pe64 ? "PE+" : "PE", n, al[a][0], al[a][1], pat, how == 0 ? "from a file" : how == 1 ? "added one by one" : "last one added");
    ref::Spec s = many_spec(n, pe64, al[a][0], al[a][1], pat);
    ref::Spec start = s;
    start.secs.resize(how == 0 ? n : how == 1 ? 0 : n ? n - 1 : 0);
    if(!start.secs.empty()) { const ref::Sec& l = start.secs.back(); start.imagesize = static_cast<uint32_t>(l.va + ref::up(l.vsize ? l.vsize : l.rawsize, s.secalign)); }
    else start.imagesize = static_cast<uint32_t>(ref::up(start.hdrsize, s.secalign));
    const Bytes f = start.build();
    if(file) *file = f;
    std::unique_ptr<pe_base> p(new pe_base(open_pe(f)));
    for(size_t i = start.secs.size(); i < s.secs.size(); ++i)
    {
        section x;
        x.set_name(s.secs[i].name); x.set_raw_data(s.secs[i].data); x.set_characteristics(s.secs[i].chars);
        if(s.secs[i].vsize != s.secs[i].data.size()) x.set_virtual_size(s.secs[i].vsize);
        section& r = p->add_section(x);
        MC_REQUIRE(c, r.get_virtual_address() == s.secs[i].va, "placement", "section %zu added at %#x, expected %#x", i, r.get_virtual_address(), s.secs[i].va);
    }
    MC_REQUIRE(c, p->get_number_of_sections() == n && p->get_image_sections().size() == static_cast<size_t>(n), "section-count", "%u sections instead of %d", p->get_number_of_sections(), n);
    return p;
}
// Images whose headers end near a boundary of the alignments or of the first section
inline std::unique_ptr<pe_base> near(mc::Ctx& c)
{
    const bool pe64 = c.flip("flavour");
    const int n = c.choose(5, "source");
    static const uint32_t al[][2] = { { 0x1000, 0x200 }, { 0x1000, 0x1000 }, { 0x200, 0x200 }, { 0x2000, 0x400 } };
    const int a = n == 4 ? 0 : c.choose(4, "alignments");
    std::unique_ptr<pe_base> p;
    if(n == 4) p = source(img::kinds, pe64);        // bound imports in the headers
    else
    {
        p.reset(new pe_base(fresh(pe64, al[a][0], n == 3)));
        p->set_file_alignment(al[a][1]);
        for(int i = 0; i < (n == 3 ? 2 : n); ++i) add_sec(*p, i ? "two" : "one", img::pattern(0x123 + 0x300 * i, 40 + i));
    }
    const uint32_t first = p->get_image_sections().empty() ? al[a][0] : p->get_image_sections()[0].get_virtual_address();
    const uint32_t targets[] = { al[a][1], 2 * al[a][1], first, first + al[a][1] };
    p->set_stub_overlay(Bytes());
    const uint32_t bare = 64 + 24 + (pe64 ? 112 : 96) + 8 * p->get_number_of_rvas_and_sizes() + 40 * static_cast<uint32_t>(p->get_image_sections().size());
    const uint32_t to = targets[c.choose(4, "boundary")];
    const int64_t len = static_cast<int64_t>(to) - bare - (n == 4 && c.flip("with bound imports") ? p->get_directory_size(pe_win::image_directory_entry_bound_import) : 0) + c.choose(19, "distance") - 9;
    c.desc("%s source %d, alignments %#x/%#x, stub of %lld bytes, headers near %#x", pe64 ? "PE+" : "PE", n, al[a][0], al[a][1], static_cast<long long>(len), to);
    if(len > 0) p->set_stub_overlay(img::pattern(static_cast<unsigned>(len), 50));
    return p;
}
struct Opt { bool strip, chg, bound; };
inline Opt options(mc::Ctx& c)
{
    const int o = c.choose(8, "options");
    Opt r = { (o & 1) != 0, (o & 2) == 0, (o & 4) == 0 };
    c.desc(" strip=%d chg=%d bound=%d", r.strip, r.chg, r.bound);
    return r;
}
// End of the header area the writer has to produce, before alignment
inline uint64_t header_end(const pe_base& pe, const Opt& o, bool move_bound, uint64_t* bound_at = 0)
{
    const uint64_t stub = o.strip ? 0 : ref::up(pe.get_stub_overlay().size(), 4);
    uint64_t e = (o.strip ? 16 : 64) + stub + 24 + (pe.get_pe_type() == pe_type_64 ? 112 : 96) + 8 * pe.get_number_of_rvas_and_sizes() + 40 * pe.get_image_sections().size();
    if(bound_at) *bound_at = e;
    if(move_bound) e += pe.get_directory_size(pe_win::image_directory_entry_bound_import);
    return e;
}
inline bool bound_in_headers(const pe_base& pe) { return pe.has_bound_import() && pe.get_directory_rva(pe_win::image_directory_entry_bound_import) < pe.get_full_headers_data().size(); }
}
