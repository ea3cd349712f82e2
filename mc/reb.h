// What the checks of rebuilt directories share: section layouts to write into, and the comparison of everything else.
#pragma once
#include "util.h"
#include "images.h"

namespace reb
{
using namespace u;
typedef std::vector<std::pair<uint32_t, uint32_t> > Ranges;   // relative addresses, half open

struct Snap { std::vector<Bytes> raw; std::vector<uint32_t> va; Bytes hdr; };
inline Bytes nt(const pe_base& pe) { return Bytes(pe.get_nt_headers_ptr(), pe.get_sizeof_nt_header()); }
inline Snap snap(const pe_base& pe)
{
    Snap s;
    const section_list& l = pe.get_image_sections();
    for(size_t i = 0; i < l.size(); ++i) { s.raw.push_back(l[i].get_raw_data()); s.va.push_back(l[i].get_virtual_address()); }
    s.hdr = nt(pe);
    return s;
}
// Everything outside bytes from..to of one section (and the allowed ranges) keeps its value; raw data counts as followed by zero bytes
inline void untouched(mc::Ctx& c, const pe_base& pe, const Snap& s, size_t sec, uint64_t from, uint64_t to, const Ranges& allowed = Ranges())
{
    const section_list& l = pe.get_image_sections();
    MC_REQUIRE(c, l.size() == s.raw.size(), "sections", "section count changed");
    for(size_t i = 0; i < l.size(); ++i)
    {
        const Bytes now = l[i].get_raw_data();
        MC_REQUIRE(c, l[i].get_virtual_address() == s.va[i], "section-moved", "section %zu moved", i);
        const size_t n = std::max(now.size(), s.raw[i].size());
        for(size_t k = 0; k < n; ++k)
        {
            const uint8_t a = k < now.size() ? now[k] : 0, b = k < s.raw[i].size() ? s.raw[i][k] : 0;
            if(a == b) continue;
            if(i == sec && k >= from && k < to) continue;
            const uint32_t rva = s.va[i] + static_cast<uint32_t>(k);
            bool ok = false;
            for(size_t x = 0; x < allowed.size(); ++x) if(rva >= allowed[x].first && rva < allowed[x].second) ok = true;
            MC_REQUIRE(c, ok, "foreign-bytes", "byte %#zx of section %zu changed from %02x to %02x; the rebuilt area is %#llx..%#llx of section %zu", k, i, b, a, (unsigned long long)from, (unsigned long long)to, sec);
        }
    }
}
// Nothing at all changed
inline void unchanged(mc::Ctx& c, const pe_base& pe, const Bytes& fp, const char* what)
{
    MC_REQUIRE(c, fingerprint(pe) == fp, "refused-changed", "%s was refused but changed the image", what);
}
// The image and the number of the section to write into
enum { layouts = 9, big_dirty = 9 };      // the last one for what is bigger than the others: no byte of the section is zero
inline size_t layout(mc::Ctx& c, std::unique_ptr<pe_base>& pe, int n, bool pe64)
{
    const int few[] = { 16, 11, 12, 15 };
    ref::Spec s(pe64);
    s.ndirs = few[n == 5 ? 1 : n == 6 ? 2 : n == 7 ? 3 : 0];
    s.add(".text", img::pattern(0x200, 1));
    if(n == 1) { s.add(".mid", img::pattern(0x600, 2)); s.add(".last", img::pattern(0x20, 3)); }
    if(n == 8) { s.add(".mid", img::pattern(0x30, 2) + Bytes(0x5d0, 0)); s.add(".last", img::pattern(0x20, 3)); }
    if(n == 2) s.add(".last", img::pattern(0x800, 4));
    if(n == big_dirty) s.add(".last", Bytes(0x12000, '\xee'));
    if(n == 3) { s.secalign = s.filealign = 0x10; s.hdrsize = 0x400; s.secs.clear(); s.add("a", img::pattern(0x33, 5)); s.add("b", img::pattern(0x20, 6)); }
    if(n == 4) s.add(".last", Bytes(), 0x1234);
    pe.reset(new pe_base(open_pe(s.build(), false, false)));
    if(n == 0 || (n >= 5 && n <= 7)) add_sec(*pe, "new", Bytes(1, 'x'));
    c.desc("%s layout %d:", pe64 ? "PE+" : "PE", n);
    return n == 1 || n == 8 ? 1 : pe->get_image_sections().size() - 1;
}
inline void inside_section(mc::Ctx& c, const pe_base& pe, size_t at, const image_directory& dir)
{
    const section& s = pe.get_image_sections()[at];
    MC_REQUIRE(c, dir.get_rva() >= s.get_virtual_address() && static_cast<uint64_t>(dir.get_rva()) + dir.get_size() <= static_cast<uint64_t>(s.get_virtual_address()) + s.get_aligned_virtual_size(pe.get_section_alignment()),
        "directory-range", "reported directory %#x+%#x is not inside its section", dir.get_rva(), dir.get_size());
}
// Only the given directory entry differs in the NT headers (and the sizes that follow from the section table)
inline void headers_kept(mc::Ctx& c, const pe_base& pe, const Snap& s, int dir, uint32_t rva, uint32_t size)
{
    Bytes want = s.hdr, now = nt(pe);
    const size_t d = want.size() - 128 + 8 * dir;
    if(dir >= 0) { ref::put32(want, d, rva); ref::put32(want, d + 4, size); }
    ref::put32(want, 80, 0); ref::put32(now, 80, 0);
    for(size_t i = 0; i < now.size(); ++i) MC_REQUIRE(c, now[i] == want[i], "header-changed", "header byte %#zx changed to %02x, should be %02x", i, (uint8_t)now[i], (uint8_t)want[i]);
}
}
