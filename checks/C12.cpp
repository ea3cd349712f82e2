// C12: header properties are independent and width-correct.
#include "util.h"
#include "images.h"
using namespace u;
const char* const mc::check_id = "C12";

// The model is the header bytes at their documented offsets (relative to the PE signature)
enum { f_machine, f_timestamp, f_chars, f_ep, f_baseofcode, f_base, f_fa, f_os, f_sub, f_checksum, f_subsystem, f_dll, f_stackres, f_stackcom, f_heapres, f_heapcom, f_hdrs, f_opt, fields };
struct F { unsigned off32, off64, w32, w64; };
static const F fld[fields] = {
    { 4, 4, 2, 2 }, { 8, 8, 4, 4 }, { 22, 22, 2, 2 }, { 40, 40, 4, 4 }, { 44, 44, 4, 4 }, { 52, 48, 4, 8 }, { 60, 60, 4, 4 }, { 64, 64, 4, 4 }, { 72, 72, 4, 4 },
    { 88, 88, 4, 4 }, { 92, 92, 2, 2 }, { 94, 94, 2, 2 }, { 96, 96, 4, 8 }, { 100, 104, 4, 8 }, { 104, 112, 4, 8 }, { 108, 120, 4, 8 }, { 84, 84, 4, 4 }, { 20, 20, 2, 2 } };

struct M
{
    bool pe64; Bytes b;
    unsigned off(int f) const { return pe64 ? fld[f].off64 : fld[f].off32; }
    unsigned w(int f) const { return pe64 ? fld[f].w64 : fld[f].w32; }
    uint64_t get(int f) const { return ref::get(b, off(f), w(f)); }
    void set(int f, uint64_t v) { ref::put(b, off(f), v, w(f)); }
};
static void getters(mc::Ctx& c, const pe_base& pe, const M& m)
{
#define G(f, expr) do { const uint64_t got_ = (expr); MC_REQUIRE(c, got_ == (want_ = m.get(f)), "getter", #expr " is %#llx, should be %#llx", (unsigned long long)got_, (unsigned long long)want_); } while(0)
#define G32(f, expr) do { const uint64_t got_ = (expr); MC_REQUIRE(c, got_ == (want_ = (uint32_t)m.get(f)), "getter", #expr " is %#llx, should be %#llx", (unsigned long long)got_, (unsigned long long)want_); } while(0)
    uint64_t want_ = 0;
    G(f_machine, pe.get_machine()); G(f_timestamp, pe.get_time_date_stamp()); G(f_chars, pe.get_characteristics()); G(f_ep, pe.get_ep()); G(f_baseofcode, pe.get_base_of_code());
    G(f_base, pe.get_image_base_64()); G32(f_base, pe.get_image_base_32()); G(f_fa, pe.get_file_alignment()); G(f_checksum, pe.get_checksum());
    G(f_subsystem, pe.get_subsystem()); G(f_dll, pe.get_dll_characteristics()); G(f_hdrs, pe.get_size_of_headers()); G(f_opt, pe.get_size_of_optional_header());
    G(f_stackres, pe.get_stack_size_reserve_64()); G(f_stackcom, pe.get_stack_size_commit_64()); G(f_heapres, pe.get_heap_size_reserve_64()); G(f_heapcom, pe.get_heap_size_commit_64());
    G32(f_stackres, pe.get_stack_size_reserve_32()); G32(f_stackcom, pe.get_stack_size_commit_32()); G32(f_heapres, pe.get_heap_size_reserve_32()); G32(f_heapcom, pe.get_heap_size_commit_32());
    G(f_os, pe.get_major_os_version() | uint32_t(pe.get_minor_os_version()) << 16);
    G(f_sub, pe.get_major_subsystem_version() | uint32_t(pe.get_minor_subsystem_version()) << 16);
#define R(f, type, call) do { type got_ = 0x5a; pe.call(got_); const uint64_t want2_ = (type)m.get(f); MC_REQUIRE(c, got_ == want2_, "getter", #call "(" #type "&) is %#llx, should be %#llx", (unsigned long long)got_, (unsigned long long)want2_); } while(0)
    R(f_base, uint32_t, get_image_base); R(f_base, uint64_t, get_image_base);
    R(f_stackres, uint32_t, get_stack_size_reserve); R(f_stackres, uint64_t, get_stack_size_reserve); R(f_stackcom, uint32_t, get_stack_size_commit); R(f_stackcom, uint64_t, get_stack_size_commit);
    R(f_heapres, uint32_t, get_heap_size_reserve); R(f_heapres, uint64_t, get_heap_size_reserve); R(f_heapcom, uint32_t, get_heap_size_commit); R(f_heapcom, uint64_t, get_heap_size_commit);
    for(uint32_t b = 1; b < 0x10000; b <<= 1) MC_REQUIRE(c, pe.check_characteristics_flag(static_cast<uint16_t>(b)) == ((m.get(f_chars) & b) != 0), "flag", "characteristics flag %#x is reported %s", b, (m.get(f_chars) & b) ? "clear" : "set");
    MC_REQUIRE(c, !pe.check_characteristics_flag(0) && pe.check_characteristics_flag(0xffff) == (m.get(f_chars) != 0), "flag", "characteristics flags");
    MC_REQUIRE(c, pe.is_gui() == (m.get(f_subsystem) == 2) && pe.is_console() == (m.get(f_subsystem) == 3), "subsystem", "is_gui/is_console disagree with the subsystem");
    MC_REQUIRE(c, pe.get_magic() == (m.pe64 ? 0x20bu : 0x10bu) && pe.get_pe_signature() == 0x4550 && pe.get_pe_type() == (m.pe64 ? pe_type_64 : pe_type_32), "type", "magic, signature or type changed");
    MC_REQUIRE(c, pe.get_section_alignment() == ref::get32(m.b, 56) && pe.get_size_of_image() == ref::get32(m.b, 80) && pe.get_number_of_rvas_and_sizes() == ref::get32(m.b, m.pe64 ? 132 : 116) && pe.get_number_of_sections() == ref::get16(m.b, 6),
        "untouched", "a property without setter changed");
}
static void compare(mc::Ctx& c, const pe_base& pe, const M& m)
{
    const Bytes now(pe.get_nt_headers_ptr(), pe.get_sizeof_nt_header());
    MC_REQUIRE(c, now.size() == m.b.size(), "size", "header size");
    for(size_t i = 0; i < now.size(); ++i)
        MC_REQUIRE(c, now[i] == m.b[i], "header-bytes", "header byte at %#zx is %02x, should be %02x", i, (unsigned char)now[i], (unsigned char)m.b[i]);
    getters(c, pe, m);
}
static M model(const pe_base& pe)
{
    M m; m.pe64 = pe.get_pe_type() == pe_type_64;
    m.b.assign(pe.get_nt_headers_ptr(), pe.get_sizeof_nt_header());
    return m;
}

static const uint64_t values[] = { 0, 1, 0xffffffffffffffffULL, 0x8000000080008000ULL, 0x123456789abcdef0ULL, 0x00000001ffff0000ULL };
enum { setters = 28 };
static const char* const names[setters] = { "machine", "timestamp", "characteristics", "set-flags", "clear-flags", "ep", "base-of-code", "base", "base64", "fa", "os", "sub", "checksum", "subsystem", "dll",
    "stackres32", "stackres64", "stackcom32", "stackcom64", "heapres32", "heapres64", "heapcom32", "heapcom64", "sizeofheaders", "sizeofopt", "gui-console", "fa-valid", "fa-edge" };

static void apply(mc::Ctx& c, pe_base& pe, M& m, int s, uint64_t v)
{
    const uint32_t d = static_cast<uint32_t>(v); const uint16_t w = static_cast<uint16_t>(v);
    c.desc(" %s=%#llx", names[s], (unsigned long long)v);
    c.step();
    switch(s)
    {
    case 0: pe.set_machine(w); m.set(f_machine, w); break;
    case 1: pe.set_time_date_stamp(d); m.set(f_timestamp, d); break;
    case 2: pe.set_characteristics(w); m.set(f_chars, w); break;
    case 3: pe.set_characteristics_flags(w); m.set(f_chars, m.get(f_chars) | w); break;
    case 4: pe.clear_characteristics_flags(w); m.set(f_chars, m.get(f_chars) & ~uint64_t(w)); break;
    case 5: pe.set_ep(d); m.set(f_ep, d); break;
    case 6: pe.set_base_of_code(d); m.set(f_baseofcode, d); break;
    case 7: pe.set_image_base(d); m.set(f_base, d); break;
    case 8: pe.set_image_base_64(v); m.set(f_base, v); break;
    case 9: case 26: case 27:
    {
        const uint32_t sa = pe.get_section_alignment();
        const uint32_t a = s == 9 ? d : s == 26 ? 0x200u << (v & 7) : static_cast<uint32_t>(v & 1 ? sa : v & 0x8000 ? sa * 2 : sa + 1);
        const bool valid = a >= 512 && !(a & (a - 1)) && a <= sa;
        bool refused = false;
        try { pe.set_file_alignment(a); } catch(const pe_exception& e) { refused = true; MC_REQUIRE(c, e.get_id() == pe_exception::incorrect_file_alignment, "alignment-error", "error id %d", e.get_id()); }
        MC_REQUIRE(c, refused == !valid, "alignment-check", "file alignment %#x with section alignment %#x refused: %d", a, sa, refused);
        if(valid) m.set(f_fa, a);
        break;
    }
    case 10: { const uint16_t x = w, y = static_cast<uint16_t>(v >> 16); pe.set_os_version(x, y); m.set(f_os, x | uint32_t(y) << 16); break; }
    case 11: { const uint16_t x = w, y = static_cast<uint16_t>(v >> 16); pe.set_subsystem_version(x, y); m.set(f_sub, x | uint32_t(y) << 16); break; }
    case 12: pe.set_checksum(d); m.set(f_checksum, d); break;
    case 13: pe.set_subsystem(w); m.set(f_subsystem, w); break;
    case 14: pe.set_dll_characteristics(w); m.set(f_dll, w); break;
    case 15: pe.set_stack_size_reserve(d); m.set(f_stackres, d); break;
    case 16: pe.set_stack_size_reserve(v); m.set(f_stackres, v); break;
    case 17: pe.set_stack_size_commit(d); m.set(f_stackcom, d); break;
    case 18: pe.set_stack_size_commit(v); m.set(f_stackcom, v); break;
    case 19: pe.set_heap_size_reserve(d); m.set(f_heapres, d); break;
    case 20: pe.set_heap_size_reserve(v); m.set(f_heapres, v); break;
    case 21: pe.set_heap_size_commit(d); m.set(f_heapcom, d); break;
    case 22: pe.set_heap_size_commit(v); m.set(f_heapcom, v); break;
    case 23: pe.set_size_of_headers(d); m.set(f_hdrs, d); break;
    case 24: pe.set_size_of_optional_header(w); m.set(f_opt, w); break;
    case 25: { const uint16_t x = v & 1 ? 2 : 3; pe.set_subsystem(x); m.set(f_subsystem, x); break; }
    }
}
static void start(mc::Ctx& c, std::unique_ptr<pe_base>& pe)
{
    static const uint32_t sas[] = { 0x1000, 0x200, 0x10000 };
    const bool pe64 = c.flip("flavour");
    const int how = c.choose(3, "image");
    c.desc("%s image %d", pe64 ? "PE+" : "PE", how);
    if(how == 1) { pe.reset(new pe_base(fresh(pe64, sas[1], true))); add_sec(*pe, "a", img::pattern(0x210, 1)); }
    else { ref::Spec s(pe64); s.secalign = sas[how]; s.add("a", img::pattern(0x210, 1)); pe.reset(new pe_base(open_pe(s.build()))); }
}
static void finish(mc::Ctx& c, pe_base& pe, M m)
{
    // written and reopened
    const Bytes f = write_pe(pe);
    pe_base q(open_pe(f, false, false));
    m.set(f_hdrs, q.get_size_of_headers()); m.set(f_opt, q.get_size_of_optional_header());    // the writer sets these
    // so is the image size, which follows from the section table
    const section& last = pe.get_image_sections().back();
    ref::put32(m.b, 80, last.get_virtual_address() + last.get_aligned_virtual_size(pe.get_section_alignment()));
    compare(c, q, m);
    const ref::Img i = ref::Img::parse(f);
    MC_REQUIRE(c, i.h.machine == m.get(f_machine) && i.h.timestamp == m.get(f_timestamp) && i.h.chars == m.get(f_chars) && i.h.ep == m.get(f_ep) && i.h.codebase == m.get(f_baseofcode) && i.h.imagebase == m.get(f_base)
        && i.h.filealign == m.get(f_fa) && i.h.osmaj == (m.get(f_os) & 0xffff) && i.h.osmin == m.get(f_os) >> 16 && i.h.submaj == (m.get(f_sub) & 0xffff) && i.h.submin == m.get(f_sub) >> 16
        && i.h.checksum == m.get(f_checksum) && i.h.subsystem == m.get(f_subsystem) && i.h.dllchars == m.get(f_dll) && i.h.stackres == m.get(f_stackres) && i.h.stackcom == m.get(f_stackcom)
        && i.h.heapres == m.get(f_heapres) && i.h.heapcom == m.get(f_heapcom), "written", "a property differs in the written file");
}
static void sequences(mc::Ctx& c)
{
    std::unique_ptr<pe_base> pe;
    start(c, pe);
    M m = model(*pe);
    compare(c, *pe, m);
    const int depth = 2, nv = 6;
    for(int i = 0; i < depth; ++i)
    {
        const int s = c.choose(setters, "setter");
        apply(c, *pe, m, s, values[c.choose(nv, "value")]);
        c.state(mc::hash(m.b));
        compare(c, *pe, m);
    }
    c.outcome(mc::hash(m.b));
    c.trace();
    finish(c, *pe, m);
}
// Longer orders of setters that touch neighbouring fields
static void orders(mc::Ctx& c)
{
    std::unique_ptr<pe_base> pe;
    start(c, pe);
    M m = model(*pe);
    const int depth = mc::tier_pick(3, 4);
    const int set = c.choose(2, "group");
    static const int g[2][8] = { { 7, 8, 16, 17, 20, 21, 26, 4 }, { 10, 11, 13, 14, 3, 4, 2, 12 } };
    for(int i = 0; i < depth; ++i)
    {
        const int s = g[set][c.choose(8, "setter")];
        apply(c, *pe, m, s, values[2 + c.choose(3, "value")]);
        c.state(mc::hash(m.b));
        compare(c, *pe, m);
    }
    c.outcome(mc::hash(m.b));
    c.trace();
    finish(c, *pe, m);
}
// Copy and DOS header access stay apart from the other properties
static void fresh_images(mc::Ctx& c)
{
    static const uint32_t sas[] = { 0x200, 0x1000, 0x2000, 0x10000 };
    const bool pe64 = c.flip("flavour"), dll = c.flip("dll");
    const uint32_t sa = c.pick(sas, "section alignment");
    const uint16_t sub = static_cast<uint16_t>(c.choose(20, "subsystem"));
    c.desc("%s dll=%d sa=%#x subsystem %u", pe64 ? "PE+" : "PE", dll, sa, sub);
    pe_base pe(pe64 ? pe_base(pe_properties_64(), sa, dll, sub) : pe_base(pe_properties_32(), sa, dll, sub));
    MC_REQUIRE(c, pe.get_pe_type() == (pe64 ? pe_type_64 : pe_type_32) && pe.get_section_alignment() == sa && pe.get_subsystem() == sub, "created", "created image has other properties than asked");
    MC_REQUIRE(c, pe.get_characteristics() == (2 | 1 | (pe64 ? 0 : 0x100) | (dll ? 0x2000 : 0)), "created-flags", "characteristics are %#x", pe.get_characteristics());
    MC_REQUIRE(c, pe.get_machine() == (pe64 ? 0x8664 : 0x14c), "created-machine", "machine is %#x", pe.get_machine());
    MC_REQUIRE(c, pe.get_dos_header().e_magic == 0x5a4d && pe.get_file_alignment() == 0x200 && pe.get_number_of_rvas_and_sizes() == 16 && !pe.has_overlay(), "created-headers", "created image has bad headers");
    for(unsigned i = 0; i < 16; ++i) MC_REQUIRE(c, !pe.directory_exists(i) && pe.get_directory_size(i) == 0, "created-dirs", "directory %u exists in a new image", i);
    M m = model(pe);
    compare(c, pe, m);
    if(c.flip("section")) { add_sec(pe, "s", img::pattern(0x33, 1)); m = model(pe); }
    c.outcome(mc::hash(m.b));
    c.step(); c.trace();
    if(!pe.get_image_sections().empty()) finish(c, pe, m);
}
namespace mc
{
const Part parts[] = {
    { "setter-sequences", sequences, 0, 0, "all sequences of 2 of 28 setters with 6 boundary values each, on 3 images and both flavours; the whole header compared byte by byte with the model after each, every getter compared, then written and reopened; a state is the model header" },
    { "setter-orders", orders, 0, 0, "all sequences of 3 (4) setters out of two groups of 8 related ones with 3 values each" },
    { "new-images", fresh_images, 0, 0, "images created from scratch for every flavour, alignment, DLL flag and subsystem" },
};
const int part_count = sizeof(parts) / sizeof(parts[0]);
}
