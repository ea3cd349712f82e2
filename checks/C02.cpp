// C02: an opened image mirrors the file it was read from.
#include "util.h"
#include "images.h"
#include "scen.h"
using namespace u;

const char* const mc::check_id = "C02";

struct Want
{
    std::vector<Bytes> raw;
    std::vector<uint32_t> rawsize;
    bool overlay;
};

static Want expect(const ref::Spec& s, const Bytes& file, bool mem)
{
    Want w;
    uint64_t end = 0;
    for(size_t i = 0; i < s.secs.size(); ++i)
    {
        const ref::Sec& x = s.secs[i];
        uint64_t n = x.rawsize;
        // "cut to the virtual size when the stored raw size is larger"; a zero virtual size means the raw size
        if(x.vsize && ref::up(n, s.filealign) > ref::up(x.vsize, s.secalign)) n = x.vsize;
        uint64_t off = mem ? ref::down(x.va, s.secalign) : ref::down(x.rawptr, s.filealign);
        w.raw.push_back(n ? file.substr(off, n) : Bytes());
        w.rawsize.push_back(static_cast<uint32_t>(n));
        if(x.rawsize) end = std::max<uint64_t>(end, static_cast<uint64_t>(x.rawptr) + x.rawsize);
    }
    w.overlay = !s.secs.empty() && file.size() > end;
    return w;
}

static void compare(mc::Ctx& c, const ref::Spec& s, const Bytes& file, bool mem, bool dbg)
{
    pe_base pe(open_pe(file, mem, dbg));
    const Want w = expect(s, file, mem);
#define EQ(a, b) do { const uint64_t x_ = static_cast<uint64_t>(a), y_ = static_cast<uint64_t>(b); MC_REQUIRE(c, x_ == y_, "header-value", "%s is %#llx, the file has %#llx", #a, static_cast<unsigned long long>(x_), static_cast<unsigned long long>(y_)); } while(0)
    EQ(pe.get_pe_type() == pe_type_64, s.pe64);
    EQ(pe.get_pe_header_start(), s.lfanew);
    EQ(pe.get_dos_header().e_magic, 0x5a4d); EQ(static_cast<uint32_t>(pe.get_dos_header().e_lfanew), s.lfanew);
    MC_REQUIRE(c, !memcmp(&pe.get_dos_header(), file.data(), 64), "dos-header", "DOS header differs from the file");
    {
        std::istringstream in(file, std::ios::in | std::ios::binary);
        pe_win::image_dos_header d;
        pe_base::read_dos_header(in, d);
        MC_REQUIRE(c, !memcmp(&d, file.data(), 64), "dos-header", "DOS header read from the stream differs from the file");
        for(uint32_t b = 1; b < 0x10000; b <<= 1) EQ(pe.check_characteristics_flag(static_cast<uint16_t>(b)), (s.chars & b) != 0);
    }
    EQ(pe.get_pe_signature(), s.signature); EQ(pe.get_machine(), s.machine); EQ(pe.get_number_of_sections(), s.secs.size());
    EQ(pe.get_time_date_stamp(), s.timestamp); EQ(pe.get_characteristics(), s.chars); EQ(pe.get_size_of_optional_header(), s.optsize());
    EQ(pe.get_magic(), s.magic); EQ(pe.get_ep(), s.ep); EQ(pe.get_base_of_code(), s.codebase); EQ(pe.get_image_base_64(), s.imagebase);
    EQ(pe.get_image_base_32(), static_cast<uint32_t>(s.imagebase));
    EQ(pe.get_section_alignment(), s.secalign); EQ(pe.get_file_alignment(), s.filealign);
    EQ(pe.get_major_os_version(), s.osmaj); EQ(pe.get_minor_os_version(), s.osmin);
    EQ(pe.get_major_subsystem_version(), s.submaj); EQ(pe.get_minor_subsystem_version(), s.submin);
    EQ(pe.get_size_of_image(), s.imagesize); EQ(pe.get_size_of_headers(), s.hdrsize); EQ(pe.get_checksum(), s.checksum);
    EQ(pe.get_subsystem(), s.subsystem); EQ(pe.get_dll_characteristics(), s.dllchars);
    EQ(pe.is_console(), s.subsystem == 3); EQ(pe.is_gui(), s.subsystem == 2);
    EQ(pe.get_stack_size_reserve_64(), s.stackres); EQ(pe.get_stack_size_commit_64(), s.stackcom);
    EQ(pe.get_stack_size_reserve_32(), static_cast<uint32_t>(s.stackres)); EQ(pe.get_stack_size_commit_32(), static_cast<uint32_t>(s.stackcom));
    EQ(pe.get_heap_size_reserve_32(), static_cast<uint32_t>(s.heapres)); EQ(pe.get_heap_size_commit_32(), static_cast<uint32_t>(s.heapcom));
    EQ(pe.get_heap_size_reserve_64(), s.heapres); EQ(pe.get_heap_size_commit_64(), s.heapcom);
    const uint32_t nd = std::min<uint32_t>(s.ndirs, 16);
    EQ(pe.get_number_of_rvas_and_sizes(), nd);
    for(uint32_t d = 0; d < nd; ++d) { EQ(pe.get_directory_rva(d), s.dirs[d].rva); EQ(pe.get_directory_size(d), s.dirs[d].size); EQ(pe.directory_exists(d), s.dirs[d].rva != 0); }
    for(uint32_t d = nd; d < 16; ++d)
    {
        bool thrown = false;
        try { pe.get_directory_rva(d); } catch(const pe_exception&) { thrown = true; }
        MC_REQUIRE(c, thrown, "directory-count", "directory %u is readable although the file has %u", d, nd);
        MC_REQUIRE(c, !pe.directory_exists(d), "directory-count", "directory %u exists although the file has %u", d, nd);
    }
    // everything else in the raw NT headers
    {
        const Bytes nt(pe.get_nt_headers_ptr(), pe.get_sizeof_nt_header() - 128);
        Bytes f = file.substr(s.lfanew, nt.size());
        if(s.ndirs > 16) ref::put32(f, f.size() - 4, 16);
        MC_REQUIRE(c, nt == f, "nt-headers", "NT headers differ from the file");
    }
    const Bytes stub = s.lfanew > 64 ? file.substr(64, s.lfanew - 64) : Bytes();
    MC_REQUIRE(c, pe.get_stub_overlay() == stub, "stub", "stub is %zu bytes %s, the file has %zu bytes", pe.get_stub_overlay().size(), mc::hex(pe.get_stub_overlay(), 8).c_str(), stub.size());
    const section_list& l = pe.get_image_sections();
    EQ(l.size(), s.secs.size());
    const Bytes& hd = pe.get_full_headers_data();
    MC_REQUIRE(c, hd == file.substr(0, hd.size()), "header-data", "retained header bytes are not the beginning of the file");
    {
        uint64_t lim = std::min<uint64_t>(s.hdrsize, file.size());
        for(size_t i = 0; i < l.size(); ++i) if(!w.raw[i].empty()) { lim = std::min<uint64_t>(s.hdrsize, s.secs[i].rawptr); break; }
        EQ(hd.size(), lim);
    }
    for(size_t i = 0; i < l.size(); ++i)
    {
        const ref::Sec& x = s.secs[i];
        Bytes nm = x.name.substr(0, 8); nm = nm.c_str();
        MC_REQUIRE(c, l[i].get_name() == nm, "section-name", "section %zu is named '%s', not '%s'", i, l[i].get_name().c_str(), nm.c_str());
        EQ(l[i].get_virtual_size(), x.vsize); EQ(l[i].get_virtual_address(), x.va); EQ(l[i].get_pointer_to_raw_data(), x.rawptr); EQ(l[i].get_characteristics(), x.chars);
        EQ(l[i].readable(), (x.chars & 0x40000000u) != 0); EQ(l[i].writeable(), (x.chars & 0x80000000u) != 0); EQ(l[i].executable(), (x.chars & 0x20000000u) != 0);
        EQ(l[i].shared(), (x.chars & 0x10000000u) != 0); EQ(l[i].discardable(), (x.chars & 0x02000000u) != 0);
        Bytes h(reinterpret_cast<const char*>(&l[i].get_raw_header()), 40);
        Bytes fh = ref::Spec::sechdr(x);
        ref::put32(fh, 16, w.rawsize[i]);
        MC_REQUIRE(c, h == fh, "section-header", "header of section %zu differs from the file: %s / %s", i, mc::hex(h).c_str(), mc::hex(fh).c_str());
        MC_REQUIRE(c, l[i].get_raw_data() == w.raw[i], "section-data", "raw data of section %zu: %zu bytes, expected %zu (first difference matters)", i, l[i].get_raw_data().size(), w.raw[i].size());
        EQ(l[i].empty(), w.raw[i].empty());
        const uint64_t va = ref::up(x.vsize ? x.vsize : w.rawsize[i], s.secalign);
        EQ(l[i].get_aligned_virtual_size(s.secalign), va);
        if(va < 0x100000)
        {
            Bytes v = l[i].get_virtual_data(s.secalign), wv = w.raw[i];
            if(wv.size() < va) wv.resize(va, 0);
            MC_REQUIRE(c, v == wv, "virtual-data", "virtual data of section %zu is %zu bytes, expected %zu", i, v.size(), wv.size());
        }
    }
    MC_REQUIRE(c, pe.has_overlay() == w.overlay, "overlay", "overlay reported as %d, the file %s", pe.has_overlay(), w.overlay ? "has one" : "has none");
    // the type of the file seen directly
    std::istringstream is(file);
    EQ(pe_base::get_pe_type(is) == pe_type_64, s.pe64);
    const pe_base::debug_data_list& dd = pe.get_raw_debug_data_list();
    if(!dbg) EQ(dd.size(), 0);
    for(pe_base::debug_data_list::const_iterator i = dd.begin(); i != dd.end(); ++i)
        MC_REQUIRE(c, i->first <= file.size() && i->second == file.substr(i->first, i->second.size()), "debug-data", "raw debug data at %#x differs from the file", i->first);
}

static const char* shape_names[] = { "aligned", "short-raw", "raw>virtual", "no-raw", "zero-vsize", "unaligned-ptr", "big-vsize", "one-byte" };

// Section shapes in a chosen layout
static void layouts(mc::Ctx& c)
{
    const int p64 = c.choose(2, "flavour");
    ref::Spec s(p64);
    static const uint32_t aligns[][2] = { { 0x1000, 0x200 }, { 0x1000, 0x1000 }, { 0x200, 0x200 }, { 0x10, 0x10 }, { 0x2000, 0x400 }, { 1, 1 } };
    const int al = c.choose(6, "alignments");
    s.secalign = aligns[al][0]; s.filealign = aligns[al][1];
    const int n = c.choose(mc::tier_pick(3, 4), "sections");
    const bool mem = c.flip("memory dump");
    s.imagesize = s.secalign < 0x1000 ? 0x1000 : s.secalign;
    s.hdrsize = s.secalign < 0x200 ? 0x300 : 0x400;
    c.desc("pe%d align %#x/%#x%s:", p64 ? 64 : 32, s.secalign, s.filealign, mem ? " memory dump" : "");
    for(int i = 0; i < n; ++i)
    {
        const int k = c.choose(8, "shape");
        c.desc(" %s", shape_names[k]);
        static const char* names[] = { ".text", "12345678", "", "a\0b" };
        const Bytes nm = i == 3 ? Bytes(names[3], 3) : Bytes(names[i]);
        Bytes d = img::pattern(0x200, static_cast<unsigned>(20 + i));
        switch(k)
        {
        case 0: s.add(nm, d); break;
        case 1: { ref::Sec& x = s.add(nm, d.substr(0, 0x123), 0x150); x.rawsize = 0x123; break; }
        case 2: { ref::Sec& x = s.add(nm, img::pattern(s.secalign * 2 + 0x30, 40), s.secalign > 8 ? s.secalign - 7 : s.secalign); (void)x; break; }
        case 3: s.add(nm, Bytes(), s.secalign + 3, 0xC0000080); break;
        case 4: { ref::Sec& x = s.add(nm, d, 1); x.vsize = 0; s.imagesize = static_cast<uint32_t>(x.va + ref::up(x.rawsize, s.secalign)); break; }
        case 5: { ref::Sec& x = s.add(nm, d); if(x.rawptr) x.rawptr += s.filealign > 0x10 ? 0x10 : 0; break; }
        case 6: s.add(nm, d, s.secalign * 3 + 1, 0x42000040); break;
        case 7: { ref::Sec& x = s.add(nm, Bytes(1, 'x'), 1, 0x12345678); x.rawsize = 1; break; }
        }
    }
    const int tail = c.choose(3, "overlay");
    Bytes f;
    if(mem) f = s.build_mapped();
    else
    {
        f = s.build();
        // unaligned pointer: the stored pointer plus size may go past the last byte written
        for(size_t i = 0; i < s.secs.size(); ++i) if(s.secs[i].rawsize && f.size() < s.secs[i].rawptr + s.secs[i].rawsize) f.resize(s.secs[i].rawptr + s.secs[i].rawsize, 0);
    }
    if(tail) f += img::pattern(tail == 1 ? 1 : 0x333, 99);
    if(mem)
    {
        // a dump must still satisfy the file-offset bounds the format check asks for
        uint64_t need = 0;
        for(size_t i = 0; i < s.secs.size(); ++i) need = std::max<uint64_t>(need, static_cast<uint64_t>(s.secs[i].rawptr) + s.secs[i].rawsize);
        for(size_t i = 0; i < s.secs.size(); ++i) if(s.secs[i].rawsize) need = std::max<uint64_t>(need, static_cast<uint64_t>(ref::down(s.secs[i].va, s.secalign)) + s.secs[i].rawsize);
        if(f.size() < need) f.resize(need, 0);
    }
    c.desc(", %zu bytes, overlay %d", f.size(), tail);
    compare(c, s, f, mem, c.flip("debug data"));
    c.outcome(mc::hash(f, mem));
}

// Header shapes: PE header position, directory counts, optional header size, field values
static void headers(mc::Ctx& c)
{
    const int p64 = c.choose(2, "flavour");
    ref::Spec s(p64);
    static const uint32_t lf[] = { 0x80, 0x40, 0x44, 0x100, 16, 0x3c };
    s.lfanew = c.pick(lf, "PE header offset");
    static const uint32_t nds[] = { 16, 15, 10, 6, 1, 0, 17, 0xffffffffu };
    const uint32_t nd = c.pick(nds, "directories");
    s.ndirs = std::min<uint32_t>(nd, 16);
    static const int pads[] = { 0, 8, 40 };
    const int pad = c.pick(pads, "optional header padding");
    s.optsize_override = static_cast<int>(s.optsize() + pad);
    const int dset = c.choose(3, "directory values");
    for(unsigned d = 0; d < 16; ++d)
    {
        s.dirs[d].rva = dset == 1 ? 0x1000 + d * 0x10 : dset == 2 ? 0xfffffff0u - d : (d % 3 ? 0 : 0x1100);
        s.dirs[d].size = dset == 1 ? d + 1 : dset == 2 ? 0xffffffffu - d : d * 2;
    }
    const int vset = c.choose(4, "field values");
    if(vset)
    {
        const uint64_t m = vset == 1 ? ~0ULL : vset == 2 ? 0x8000000080000000ULL : 0x0123456789abcdefULL;
        s.machine = static_cast<uint16_t>(m); s.timestamp = static_cast<uint32_t>(m); s.symptr = static_cast<uint32_t>(m >> 3); s.nsyms = static_cast<uint32_t>(m >> 5);
        s.chars = static_cast<uint16_t>(m >> 2); s.linkmaj = static_cast<uint8_t>(m); s.linkmin = static_cast<uint8_t>(m >> 1); s.codesize = static_cast<uint32_t>(m >> 7);
        s.initsize = static_cast<uint32_t>(m >> 9); s.uninitsize = static_cast<uint32_t>(m >> 11); s.ep = static_cast<uint32_t>(m >> 13);
        s.codebase = static_cast<uint32_t>(m >> 4); s.database = static_cast<uint32_t>(m >> 6);
        s.imagebase = p64 ? m : static_cast<uint32_t>(m); s.osmaj = static_cast<uint16_t>(m >> 1); s.osmin = static_cast<uint16_t>(m >> 2);
        s.imgmaj = static_cast<uint16_t>(m >> 3); s.imgmin = static_cast<uint16_t>(m >> 4); s.submaj = static_cast<uint16_t>(m >> 5); s.submin = static_cast<uint16_t>(m >> 6);
        s.win32ver = static_cast<uint32_t>(m >> 8); s.checksum = static_cast<uint32_t>(m >> 10); s.subsystem = vset == 3 ? 2 : static_cast<uint16_t>(m >> 12); s.dllchars = static_cast<uint16_t>(m >> 14);
        s.stackres = p64 ? m >> 1 : static_cast<uint32_t>(m >> 1); s.stackcom = p64 ? m >> 2 : static_cast<uint32_t>(m >> 2);
        s.heapres = p64 ? m >> 3 : static_cast<uint32_t>(m >> 3); s.heapcom = p64 ? m >> 4 : static_cast<uint32_t>(m >> 4); s.loaderflags = static_cast<uint32_t>(m >> 15);
    }
    const int ns = c.choose(3, "sections");
    s.imagesize = 0x1000;
    if(ns) s.add(".text", img::pattern(0x180, 5));
    if(ns > 1) s.add(".bss", Bytes(), 0x10);
    if(ns == 0 && c.flip("short file")) s.fill_headers = false;
    if(s.lfanew < 0x40)
    {
        // overlapped headers: the DOS header's last field is inside the PE header
        const Bytes probe = s.headers();
        if(s.lfanew == 16) s.codebase = 16; else return;
        (void)probe;
    }
    Bytes f = s.build();
    if(s.lfanew == 16) ref::put32(f, 60, 16);
    if(nd > 16) { ref::put32(f, s.dirs_off() - 4, nd); s.ndirs = nd; s.optsize_override = static_cast<int>(ref::get16(f, s.lfanew + 20)); }
    if(s.lfanew < 0x40) { s.dos = f.substr(2, 58); }
    c.desc("pe%d lfanew %#x dirs %u pad %d dset %d vset %d sections %d, %zu bytes", p64 ? 64 : 32, s.lfanew, nd, pad, dset, vset, ns, f.size());
    // a file with fewer bytes than the headers claim is only accepted without sections
    compare(c, s, f, false, true);
    c.outcome(mc::hash(f));
}

// Where raw data is stored: any order in the file, shared, with bytes between, inside the area SizeOfHeaders covers
static void placements(mc::Ctx& c)
{
    const int p64 = c.choose(2, "flavour");
    ref::Spec s(p64);
    static const uint32_t hs[] = { 0x400, 0x200, 0x600, 0x1000, 0x801, 0x3ff };
    s.hdrsize = 0x400;
    const int n = 1 + c.choose(mc::tier_pick(3, 4), "sections");
    static const uint32_t sizes[] = { 0x200, 0, 0x400, 0x123 };
    for(int i = 0; i < n; ++i)
    {
        const uint32_t z = c.pick(sizes, "raw size");
        ref::Sec& x = s.add(std::string(".s") + static_cast<char>('0' + i), img::pattern(z, static_cast<unsigned>(60 + i)), z == 0 ? 0x800 : 0x1000);
        x.rawsize = z;
        if(!z) x.rawptr = c.flip("pointer of the empty section") ? 0x7fffff00 : 0;
    }
    // order in the file: the k-th chosen section is stored next
    std::vector<int> left; for(int i = 0; i < n; ++i) if(s.secs[i].rawsize) left.push_back(i);
    static const uint32_t starts[] = { 0x400, 0x600, 0x200 };
    uint32_t pos = s.secs.empty() ? 0 : c.pick(starts, "first raw data");
    const bool shared = left.size() > 1 && c.flip("shared data");
    const uint32_t gap = c.choose(2, "gap") ? 0x200 : 0;
    Bytes order;
    if(c.flip("in table order")) { for(size_t k = 0; k < left.size(); ++k) { order += static_cast<char>('0' + left[k]); s.secs[left[k]].rawptr = pos; if(!shared || k) pos = static_cast<uint32_t>(ref::up(pos + s.secs[left[k]].rawsize, 0x200)) + gap; } }
    else
    {
        bool first = true;
        while(!left.empty())
        {
            const int k = c.choose(static_cast<int>(left.size()), "next in the file");
            ref::Sec& x = s.secs[left[k]];
            order += static_cast<char>('0' + left[k]);
            x.rawptr = pos;
            if(!shared || !first) pos = static_cast<uint32_t>(ref::up(pos + x.rawsize, 0x200)) + gap;
            first = false;
            left.erase(left.begin() + k);
        }
    }
    Bytes f = s.build();
    s.hdrsize = c.pick(hs, "SizeOfHeaders");
    ref::put32(f, s.lfanew + 24 + 60, s.hdrsize);
    const int tail = c.choose(2, "overlay");
    if(tail) f += "!";
    // what is stored at the header's place wins over raw data that reaches into it: only the bytes of the file count
    if(f.size() < s.hdrsize) f.resize(s.hdrsize, 0);
    const Bytes hd = s.headers();
    f.replace(0, hd.size(), hd);
    c.desc("pe%d %d sections, stored in order %s from %#x%s%s, SizeOfHeaders %#x, %zu bytes", p64 ? 64 : 32, n, order.c_str(), pos, gap ? " with gaps" : "", shared ? ", two share data" : "", s.hdrsize, f.size());
    compare(c, s, f, false, true);
    c.outcome(mc::hash(f));
}

// Up to the limit of sections
static void many(mc::Ctx& c)
{
    const int n = c.choose(97, "sections");
    const bool p64 = c.flip("flavour");
    static const uint32_t al[][2] = { { 0x1000, 0x200 }, { 0x200, 0x200 }, { 0x1000, 0x1000 } };
    const int a = c.choose(3, "alignments"), pat = c.choose(4, "sizes");
    const bool mem = c.flip("memory dump");
    ref::Spec s = scen::many_spec(n, p64, al[a][0], al[a][1], pat);
    c.desc("pe%d %d sections, alignments %#x/%#x, sizes %d%s", p64 ? 64 : 32, n, al[a][0], al[a][1], pat, mem ? ", memory dump" : "");
    Bytes f = mem ? s.build_mapped() : s.build();
    if(mem)
        for(size_t i = 0; i < s.secs.size(); ++i)
            if(s.secs[i].rawsize)
            {
                const uint64_t need = std::max<uint64_t>(static_cast<uint64_t>(s.secs[i].rawptr) + s.secs[i].rawsize, s.secs[i].va + static_cast<uint64_t>(s.secs[i].rawsize));
                if(f.size() < need) f.resize(need, 0);
            }
    if(c.flip("overlay")) f += img::pattern(5, 99);
    compare(c, s, f, mem, false);
    c.outcome(mc::hash(f, mem));
}
namespace mc
{
const Part parts[] = {
    { "section-layouts", layouts, 0, 0, "all sequences of up to 2 (3 thorough) sections of 8 shapes in 6 alignment settings, file and memory-dump form, three overlay sizes; every file is a distinct non-trivial case" },
    { "raw-placements", placements, 0, 0, "up to 3 (4 thorough) sections of 4 raw sizes stored in every order, shared, with gaps, from 3 starts, under 6 values of SizeOfHeaders; every file is a distinct case" },
    { "many-sections", many, 0, 0, "0 to 96 sections x 2 flavours x 3 alignments x 4 patterns of sizes, file and memory-dump form, with and without overlay" },
    { "header-shapes", headers, 0, 0, "PE header offset x directory count x optional header padding x directory values x field values x sections; every file is a distinct case" },
};
const int part_count = sizeof(parts) / sizeof(parts[0]);
}
