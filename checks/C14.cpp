// C14: rebuilt imports read back unchanged.
#include "util.h"
#include "images.h"
using namespace u;
const char* const mc::check_id = "C14";

// ---- independent loader-style reader
struct Fn { Bytes name; uint16_t hint, ordinal; uint64_t iat; };
struct Lib { Bytes name; uint32_t ts, ft, oft; std::vector<Fn> f; };
typedef std::vector<Lib> Libs;
static Libs read(const ref::Mem& m, uint32_t rva, bool pe64)
{
    Libs r;
    const unsigned w = pe64 ? 8 : 4;
    for(;; rva += 20)
    {
        Lib l;
        l.oft = m.r32(rva); l.ts = m.r32(rva + 4); l.ft = m.r32(rva + 16);
        const uint32_t nm = m.r32(rva + 12);
        if(!nm) break;
        l.name = m.cstr(nm);
        uint32_t lookup = l.oft ? l.oft : l.ft, iat = l.ft;
        for(;; lookup += w, iat += w)
        {
            const uint64_t t = m.rd(lookup, w), a = m.rd(iat, w);
            if(!t || !a) { if(t || a) throw ref::Err("tables of different length"); break; }
            Fn f; f.hint = f.ordinal = 0; f.iat = a;
            if(t >> (8 * w - 1)) { f.ordinal = static_cast<uint16_t>(t); if(t & ~(1ull << (8 * w - 1)) & ~0xffffull) throw ref::Err("reserved bits in an ordinal thunk"); }
            else { f.hint = m.r16(t); f.name = m.cstr(t + 2); }
            l.f.push_back(f);
        }
        r.push_back(l);
    }
    return r;
}
static Libs from_library(const imported_functions_list& v)
{
    Libs r;
    for(size_t i = 0; i < v.size(); ++i)
    {
        Lib l; l.name = v[i].get_name(); l.ts = v[i].get_timestamp(); l.ft = v[i].get_rva_to_iat(); l.oft = v[i].get_rva_to_original_iat();
        const import_library::imported_list& fs = v[i].get_imported_functions();
        for(size_t k = 0; k < fs.size(); ++k) { Fn f; f.name = fs[k].get_name(); f.hint = fs[k].get_hint(); f.ordinal = fs[k].get_ordinal(); f.iat = fs[k].get_iat_va(); l.f.push_back(f); }
        r.push_back(l);
    }
    return r;
}
static imported_functions_list to_library(const Libs& v)
{
    imported_functions_list r;
    for(size_t i = 0; i < v.size(); ++i)
    {
        import_library l; l.set_name(v[i].name); l.set_timestamp(v[i].ts); l.set_rva_to_iat(v[i].ft); l.set_rva_to_original_iat(v[i].oft);
        for(size_t k = 0; k < v[i].f.size(); ++k)
        {
            imported_function f;
            const Fn& x = v[i].f[k];
            if(x.name.empty()) f.set_ordinal(x.ordinal); else { f.set_name(x.name); f.set_hint(x.hint); }
            f.set_iat_va(x.iat);
            l.add_import(f);
        }
        r.push_back(l);
    }
    return r;
}
// The list is what was asked for; address values equal those given where the caller gave one
static void same(mc::Ctx& c, const char* who, const Libs& got, const Libs& want, bool pe64, bool iat_given)
{
    MC_REQUIRE(c, got.size() == want.size(), "count", "%s finds %zu libraries, should find %zu", who, got.size(), want.size());
    for(size_t i = 0; i < got.size(); ++i)
    {
        MC_REQUIRE(c, got[i].name == want[i].name && got[i].ts == want[i].ts, "library", "%s finds library %zu \"%s\" %#x, should be \"%s\" %#x", who, i, got[i].name.c_str(), got[i].ts, want[i].name.c_str(), want[i].ts);
        MC_REQUIRE(c, got[i].f.size() == want[i].f.size(), "functions", "%s finds %zu functions in library %zu, should find %zu", who, got[i].f.size(), i, want[i].f.size());
        for(size_t k = 0; k < got[i].f.size(); ++k)
        {
            const Fn& a = got[i].f[k]; const Fn& b = want[i].f[k];
            MC_REQUIRE(c, a.name == b.name, "name", "%s finds function %zu/%zu \"%s\", should be \"%s\"", who, i, k, a.name.c_str(), b.name.c_str());
            if(b.name.empty()) MC_REQUIRE(c, a.ordinal == b.ordinal, "ordinal", "%s finds ordinal %u, should be %u", who, a.ordinal, b.ordinal);
            else MC_REQUIRE(c, a.hint == b.hint, "hint", "%s finds hint %#x, should be %#x", who, a.hint, b.hint);
            if(iat_given && (pe64 ? b.iat : static_cast<uint32_t>(b.iat))) MC_REQUIRE(c, a.iat == (pe64 ? b.iat : static_cast<uint32_t>(b.iat)), "iat", "%s finds address table entry %#llx, should be %#llx", who, (unsigned long long)a.iat, (unsigned long long)b.iat);
        }
    }
}
static uint64_t hash_of(const Libs& l)
{
    uint64_t h = l.size();
    for(size_t i = 0; i < l.size(); ++i)
    {
        h = mc::mix(h, mc::mix(mc::hash(l[i].name), l[i].ts));
        for(size_t k = 0; k < l[i].f.size(); ++k) h = mc::mix(h, mc::mix(mc::hash(l[i].f[k].name), mc::mix(l[i].f[k].hint, mc::mix(l[i].f[k].ordinal, l[i].f[k].iat != 0))));
        h = mc::mix(h, l[i].f.size());
    }
    return h;
}
static Fn fn(int kind, int i)
{
    Fn f; f.hint = f.ordinal = 0; f.iat = 0;
    switch(kind)
    {
    case 0: f.name = "f"; f.hint = static_cast<uint16_t>(i); break;
    case 1: f.name = "LongerFunctionName@" + Bytes(1, static_cast<char>('0' + i % 10)); f.hint = 0xffff; break;
    case 2: f.ordinal = static_cast<uint16_t>(1 + i); break;
    case 3: f.ordinal = 0xffff; break;
    }
    return f;
}
static Libs choose_list(mc::Ctx& c, int max_lib, int max_fn)
{
    Libs r;
    const int n = c.choose(max_lib + 1, "libraries"), iat = c.choose(3, "address values");
    static const char* const names[] = { "a.dll", "KERNEL32.DLL", "third.library.name.dll" };
    static const uint32_t ts[] = { 0, 0xffffffff, 0x12345678 };
    for(int i = 0; i < n; ++i)
    {
        Lib l; l.name = names[i]; l.ts = ts[(i + iat) % 3]; l.ft = l.oft = 0;
        const int k = c.choose(max_fn + 1, "functions");
        for(int j = 0; j < k; ++j)
        {
            Fn f = fn(c.choose(4, "function"), j);
            f.iat = iat == 0 ? 0 : iat == 1 || j % 2 ? 0x1122334400000001ull + 0x55667700u + 16 * j : 0;
            l.f.push_back(f);
        }
        r.push_back(l);
    }
    for(size_t i = 0; i < r.size(); ++i) { c.desc(" %s:", r[i].name.c_str()); for(size_t k = 0; k < r[i].f.size(); ++k) c.desc(" %s#%u%s", r[i].f[k].name.c_str(), r[i].f[k].ordinal, r[i].f[k].iat ? "!" : ""); }
    return r;
}
struct Opt { bool b, s, f, r, strip, hdr, zero; uint32_t off; };
static void set(import_rebuilder_settings& st, const Opt& o)
{
    st.build_original_iat(o.b); st.save_iat_and_original_iat_rvas(o.s, o.r); st.fill_missing_original_iats(o.f);
    st.enable_auto_strip_last_section(o.strip); st.auto_set_to_pe_headers(o.hdr); st.zero_directory_entry_iat(o.zero); st.set_offset_from_section_start(o.off);
}
struct Snap { std::vector<Bytes> raw; std::vector<uint32_t> va; Bytes hdr; };
static Snap snap(const pe_base& pe)
{
    Snap s;
    const section_list& l = pe.get_image_sections();
    for(size_t i = 0; i < l.size(); ++i) { s.raw.push_back(l[i].get_raw_data()); s.va.push_back(l[i].get_virtual_address()); }
    return s;
}
// Everything outside the rebuilt area (and the allowed ranges) keeps its bytes
static void untouched(mc::Ctx& c, const pe_base& pe, const Snap& s, size_t sec, uint32_t from, uint32_t to, const std::vector<std::pair<uint32_t, uint32_t> >& allowed)
{
    const section_list& l = pe.get_image_sections();
    MC_REQUIRE(c, l.size() == s.raw.size(), "sections", "section count changed");
    for(size_t i = 0; i < l.size(); ++i)
    {
        const Bytes now = l[i].get_raw_data();
        MC_REQUIRE(c, l[i].get_virtual_address() == s.va[i], "section-moved", "section %zu moved", i);
        const size_t n = std::max(now.size(), s.raw[i].size());
        for(size_t k = 0; k < n; ++k)
        {
            const uint8_t a = k < now.size() ? now[k] : 0, b = k < s.raw[i].size() ? s.raw[i][k] : 0;
            if(a == b) continue;
            if(i == sec && k >= from && k < to) continue;
            const uint32_t rva = s.va[i] + static_cast<uint32_t>(k);
            bool ok = false;
            for(size_t x = 0; x < allowed.size(); ++x) if(rva >= allowed[x].first && rva < allowed[x].second) ok = true;
            MC_REQUIRE(c, ok, "foreign-bytes", "byte %#zx of section %zu changed from %02x to %02x; the rebuilt area is %#x..%#x of section %zu", k, i, b, a, from, to, sec);
        }
    }
}
static void check_all(mc::Ctx& c, pe_base& pe, const image_directory& dir, const Libs& want, bool hdr, bool iat_given)
{
    const bool pe64 = pe.get_pe_type() == pe_type_64;
    same(c, "reader", read(mem_of(pe), dir.get_rva(), pe64), want, pe64, iat_given);
    const size_t at = &pe.section_from_rva(dir.get_rva()) - &pe.get_image_sections()[0];
    const section& s = pe.get_image_sections()[at];
    MC_REQUIRE(c, static_cast<uint64_t>(dir.get_rva()) + dir.get_size() <= static_cast<uint64_t>(s.get_virtual_address()) + s.get_aligned_virtual_size(pe.get_section_alignment()), "directory-range", "reported directory %#x+%#x ends outside its section", dir.get_rva(), dir.get_size());
    if(!hdr) { pe.set_directory_rva(1, dir.get_rva()); pe.set_directory_size(1, dir.get_size()); }
    MC_REQUIRE(c, pe.get_directory_rva(1) == dir.get_rva() && pe.get_directory_size(1) == dir.get_size(), "directory", "header directory is %#x+%#x, reported %#x+%#x", pe.get_directory_rva(1), pe.get_directory_size(1), dir.get_rva(), dir.get_size());
    same(c, "library", from_library(get_imported_functions(pe)), want, pe64, iat_given);
    const Bytes f = write_pe(pe);
    const ref::Img im = ref::Img::parse(f);
    same(c, "reader (written)", read(ref::Mem::map(im), im.h.dirs[1].rva, pe64), want, pe64, iat_given);
    pe_base q(open_pe(f, false, false));
    same(c, "library (reopened)", from_library(get_imported_functions(q)), want, pe64, iat_given);
    c.outcome(mc::mix(hash_of(want), dir.get_size()));
    c.trace();
}
// The image and the section imports go to
static const int reb_dirty = 9;
static size_t layout(mc::Ctx& c, std::unique_ptr<pe_base>& pe, int n, bool pe64, Bytes* = 0)
{
    const int few[] = { 16, 3, 12, 2 };
    ref::Spec s(pe64);
    s.ndirs = few[n == 5 ? 1 : n == 6 ? 2 : n == 7 ? 3 : 0];
    s.add(".text", img::pattern(0x200, 1));
    if(n == 1) { s.add(".mid", img::pattern(0x600, 2)); s.add(".last", img::pattern(0x20, 3)); }
    if(n == 2) s.add(".last", img::pattern(0x800, 4));
    if(n == reb_dirty) s.add(".last", Bytes(0x12000, '\xee'));
    if(n == 3) { s.secalign = s.filealign = 0x10; s.hdrsize = 0x400; s.secs.clear(); s.add("a", img::pattern(0x33, 5)); s.add("b", img::pattern(0x20, 6)); }
    if(n == 4) s.add(".last", Bytes(), 0x1234);
    if(s.ndirs > 12) { s.dirs[12].rva = 0x1010; s.dirs[12].size = 0x20; }
    pe.reset(new pe_base(open_pe(s.build(), false, false)));
    if(n == 0 || (n >= 5 && n != reb_dirty)) add_sec(*pe, "imports", Bytes(1, 'x'));
    c.desc("%s layout %d:", pe64 ? "PE+" : "PE", n);
    return n == 1 ? 1 : pe->get_image_sections().size() - 1;
}
static Opt options(mc::Ctx& c)
{
    static const int combo[12][4] = { {1,1,0,0}, {1,0,0,0}, {0,0,0,0}, {0,1,0,0}, {1,1,1,0}, {0,1,1,0}, {1,0,1,0}, {0,0,1,0}, {1,1,0,1}, {0,1,0,1}, {1,1,1,1}, {0,1,1,1} };
    const int k = c.choose(12, "table options");
    Opt o; o.b = combo[k][0]; o.s = combo[k][1]; o.f = combo[k][2]; o.r = combo[k][3];
    c.desc(" build=%d save=%d fill=%d rewrite=%d", o.b, o.s, o.f, o.r);
    return o;
}
static void fresh_lists(mc::Ctx& c)
{
    std::unique_ptr<pe_base> pe;
    const bool pe64 = c.flip("flavour");
    const int n = c.choose(8, "layout");
    const size_t at = layout(c, pe, n, pe64);
    Opt o = options(c);
    static const uint32_t offs[] = { 0, 0x1d, 0x104 };
    o.off = offs[c.dev(3, "offset")];
    o.strip = !c.dev(2, "strip"); o.hdr = !c.dev(2, "headers"); o.zero = !c.dev(2, "zero-iat");
    c.desc(" off=%#x strip=%d hdr=%d zero=%d", o.off, o.strip, o.hdr, o.zero);
    const bool plain = o.off == 0 && o.strip && o.hdr && o.zero;
    const Libs want = choose_list(c, plain || mc::thorough() ? 2 : 1, 2);
    import_rebuilder_settings st; set(st, o);
    const Snap before = snap(*pe);
    section& sec = pe->get_image_sections()[at];
    c.step();
    image_directory dir;
    const uint32_t old1 = pe->get_directory_rva(1), old12 = pe->get_number_of_rvas_and_sizes() > 12 ? pe->get_directory_rva(12) : 0;
    dir = rebuild_imports(*pe, to_library(want), sec, st);
    if(!o.hdr) MC_REQUIRE(c, pe->get_directory_rva(1) == old1, "headers-set", "the directory was set although not asked");
    if(pe->get_number_of_rvas_and_sizes() > 12) MC_REQUIRE(c, pe->get_directory_rva(12) == (o.hdr && o.zero ? 0 : old12), "iat-directory", "address table directory is %#x", pe->get_directory_rva(12));
    const uint32_t va = pe->get_image_sections()[at].get_virtual_address();
    MC_REQUIRE(c, dir.get_rva() >= va + o.off, "directory-start", "directory %#x before the offset %#x", dir.get_rva(), va + o.off);
    untouched(c, *pe, before, at, o.off, dir.get_rva() + dir.get_size() - va, std::vector<std::pair<uint32_t, uint32_t> >());
    check_all(c, *pe, dir, want, o.hdr, o.b);
}
// Values that are easily taken for something else: equal names, names differing in case, empty names, ordinal 0, half-zero addresses
static void special(mc::Ctx& c)
{
    std::unique_ptr<pe_base> pe;
    const bool pe64 = c.flip("flavour");
    const size_t at = layout(c, pe, c.choose(2, "layout"), pe64);
    static const char* const libs[] = { "a.dll", "A.DLL", "a", "", "a.dll.dll", "\xe9.dll" };
    static const char* const names[] = { "f", "F", "", "#1", "?f@@", "\xff" };
    static const uint16_t nums[] = { 0, 1, 0x7fff, 0x8000, 0xffff };
    static const uint64_t iats[] = { 0, 1, 0x80000000, 0xffffffff, 0x5500000000ull, 1ull << 63, (1ull << 63) | 5, ~0ull };
    const int what = c.choose(3, "what"), orig = c.choose(2, "originals");
    Libs want;
    const int n = what == 0 ? 1 + c.choose(mc::tier_pick(3, 4), "libraries") : 1 + c.choose(2, "libraries");
    for(int i = 0; i < n; ++i)
    {
        Lib l; l.ts = 0; l.ft = l.oft = 0;
        l.name = what == 0 ? c.pick(libs, "library name") : libs[0];
        const int k = what == 0 ? c.choose(2, "functions") : what == 1 ? 2 : i ? 1 : 3;
        for(int j = 0; j < k; ++j)
        {
            Fn f; f.hint = f.ordinal = 0; f.iat = 0;
            if(what == 0) f.name = "f";
            else
            {
                if(what == 1) { f.name = names[i ? c.choose(3, "name") : c.choose(6, "name")]; (f.name.empty() ? f.ordinal : f.hint) = i ? nums[j] : c.pick(nums, "number"); }
                else { if(j == 1) f.ordinal = 7; else f.name = "g"; f.iat = i ? iats[j + 4] : c.pick(iats, "address"); }
            }
            l.f.push_back(f);
        }
        want.push_back(l);
    }
    for(size_t i = 0; i < want.size(); ++i) { c.desc(" %s:", want[i].name.c_str()); for(size_t k = 0; k < want[i].f.size(); ++k) c.desc(" %s#%u/%u@%llx", want[i].f[k].name.c_str(), want[i].f[k].ordinal, want[i].f[k].hint, static_cast<unsigned long long>(want[i].f[k].iat)); }
    import_rebuilder_settings st;
    st.build_original_iat(orig);
    const Snap before = snap(*pe);
    c.step();
    const image_directory dir = rebuild_imports(*pe, to_library(want), pe->get_image_sections()[at], st);
    untouched(c, *pe, before, at, 0, dir.get_rva() + dir.get_size() - pe->get_image_sections()[at].get_virtual_address(), std::vector<std::pair<uint32_t, uint32_t> >());
    check_all(c, *pe, dir, want, true, orig);
}
// Sizes: many functions and long names, crossing file and section alignments
static void sizes(mc::Ctx& c)
{
    std::unique_ptr<pe_base> pe;
    const bool pe64 = c.flip("flavour");
    const int n = c.choose(5, "layout");
    const size_t at = layout(c, pe, n == 1 ? reb_dirty : n, pe64);
    Opt o; o.b = c.flip("build"); o.s = false; o.f = o.r = false; o.strip = o.hdr = o.zero = true; o.off = 0;
    const int most = mc::tier_pick(160, 1200), mode = c.choose(2, "what"), k = c.choose(most + (n == 0 && pe64 ? 8 : 0), "size");
    static const uint32_t big[] = { 65533, 65534, 65535, 65536, 65537, 65540, 70000, 131072 };
    const uint32_t size = k < most ? (mode ? 1 + k * 7 : k) : big[k - most] - (mode ? 0 : 63000);
    Libs want;
    Lib l; l.name = "lib.dll"; l.ts = 1; l.ft = l.oft = 0;
    if(mode == 0) for(uint32_t i = 0; i < size; ++i) { Fn f = fn(i % 3, i); l.f.push_back(f); }
    else { Fn f = fn(0, 1); f.name = Bytes(size, 'n'); l.f.push_back(f); l.f.push_back(fn(2, 3)); }
    want.push_back(l); l.name = "z.dll"; l.f.clear(); l.f.push_back(fn(1, 1)); want.push_back(l);
    c.desc(" build=%d mode %d size %d", o.b, mode, size);
    import_rebuilder_settings st; set(st, o);
    const Snap before = snap(*pe);
    c.step();
    const image_directory dir = rebuild_imports(*pe, to_library(want), pe->get_image_sections()[at], st);
    untouched(c, *pe, before, at, 0, dir.get_rva() + dir.get_size() - pe->get_image_sections()[at].get_virtual_address(), std::vector<std::pair<uint32_t, uint32_t> >());
    check_all(c, *pe, dir, want, true, o.b);
}
// An image with imports is rebuilt again, keeping, filling or rewriting its tables
static void again(mc::Ctx& c)
{
    const bool pe64 = c.flip("flavour"), first_orig = c.flip("original tables");
    std::unique_ptr<pe_base> pe(new pe_base(fresh(pe64)));
    add_sec(*pe, ".text", img::pattern(0x80, 1));
    section& a = add_sec(*pe, "first", Bytes(1, 0));
    import_rebuilder_settings st;
    st.build_original_iat(first_orig);
    c.desc("%s originals=%d:", pe64 ? "PE+" : "PE", first_orig);
    const Libs first = choose_list(c, 2, mc::tier_pick(2, 1));
    rebuild_imports(*pe, to_library(first), a, st);
    const int rounds = mc::tier_pick(1, 2);
    for(int round = 0; round < rounds; ++round)
    {
        Libs want = from_library(get_imported_functions(*pe));
        const Libs old = want;
        Opt o = options(c);
        const int change = c.choose(4, "change");
        c.desc(" change %d", change);
        if(change == 1) { Lib l; l.name = "added.dll"; l.ts = 3; l.ft = l.oft = 0; l.f.push_back(fn(0, 5)); l.f.push_back(fn(2, 6)); want.push_back(l); }
        if(change == 2) for(size_t i = 0; i < want.size(); ++i) { want[i].ts ^= 0x101; for(size_t k = 0; k < want[i].f.size(); ++k) want[i].f[k].iat = 0x70001000 + 8 * k; }
        if(change == 3 && !want.empty()) { if(o.s && !o.r) return; for(size_t k = 0; k < want[0].f.size(); ++k) want[0].f[k] = fn(k & 1 ? 0 : 2, 40); }
        const bool same_section = c.flip("same section");
        if(same_section) o.off = static_cast<uint32_t>(ref::up(pe->get_image_sections().back().get_raw_data().size(), 4));
        else { add_sec(*pe, "next", Bytes(3, 'y')); o.off = 8; }
        o.strip = o.hdr = o.zero = true;
        // dropping the lookup tables of a list whose address tables are already bound loses the names, as documented
        bool bound = false;
        for(size_t i = 0; i < old.size(); ++i) for(size_t k = 0; k < old[i].f.size(); ++k) if(old[i].oft && old[i].f[k].iat >= 0x1000000) bound = true;
        if(o.s && !o.b && !o.r && bound) return;
        set(st, o);
        const size_t at = pe->get_image_sections().size() - 1;
        const Snap before = snap(*pe);
        c.step();
        const image_directory dir = rebuild_imports(*pe, to_library(want), pe->get_image_sections()[at], st);
        const unsigned w = pe64 ? 8 : 4;
        std::vector<std::pair<uint32_t, uint32_t> > allowed;
        if(o.r) for(size_t i = 0; i < old.size(); ++i)
        {
            const uint32_t n = static_cast<uint32_t>(w * (old[i].f.size() + 1));
            allowed.push_back(std::make_pair(old[i].ft, old[i].ft + n));
            if(old[i].oft && o.b) allowed.push_back(std::make_pair(old[i].oft, old[i].oft + n));
        }
        untouched(c, *pe, before, at, o.off, dir.get_rva() + dir.get_size() - pe->get_image_sections()[at].get_virtual_address(), allowed);
        const Libs got = read(mem_of(*pe), dir.get_rva(), pe64);
        MC_REQUIRE(c, got.size() == want.size(), "count", "%zu libraries, should be %zu", got.size(), want.size());
        for(size_t i = 0; i < got.size(); ++i)
        {
            const bool saved = o.s && want[i].ft;
            if(saved) MC_REQUIRE(c, got[i].ft == want[i].ft, "kept-position", "address table of library %zu moved from %#x to %#x", i, want[i].ft, got[i].ft);
            if(saved && o.b && want[i].oft) MC_REQUIRE(c, got[i].oft == want[i].oft, "kept-original", "original table of library %zu moved from %#x to %#x", i, want[i].oft, got[i].oft);
            MC_REQUIRE(c, !got[i].oft == !(o.b && (want[i].oft || !saved || o.f)), "original-presence", "library %zu has original table %#x", i, got[i].oft);
            if(!saved) for(size_t k = 0; k < old.size(); ++k) MC_REQUIRE(c, got[i].ft != old[k].ft, "new-table", "library %zu shares an old address table", i);
        }
        // address values are the given ones wherever tables with originals were written
        bool given = o.b && (!o.s || o.r);
        for(size_t i = 0; i < want.size(); ++i) if(o.s && o.r && !want[i].oft && want[i].ft && !o.f) given = false;
        check_all(c, *pe, dir, want, true, given);
    }
}
namespace mc
{
const Part parts[] = {
    { "new-lists", fresh_lists, 1, 2, "all lists of up to 2 libraries with up to 2 functions of 4 kinds and 3 sorts of address values, in 8 section layouts, with all 12 combinations of table options, both flavours, and (for single libraries in the quick tier) up to 1 (2) other settings changed; read back by an independent reader and the library, before and after writing" },
    { "sizes", sizes, 0, 0, "lists of 0..159 (0..1199) functions and names of up to 1113 (8393) bytes in 5 layouts; around 64 KB, and thousands of functions, in one" },
    { "special-values", special, 0, 0, "lists of up to 3 (4) libraries with equal, empty and case-differing names; functions with 6 names x 5 hints or ordinals; 3 functions with all triples of 8 special address values; 2 layouts, both flavours, with and without original tables" },
    { "rebuilt-again", again, 0, 0, "lists that were written, read back, changed in 4 ways and written again into the same or a new section under all 12 combinations of table options" },
};
const int part_count = sizeof(parts) / sizeof(parts[0]);
}
