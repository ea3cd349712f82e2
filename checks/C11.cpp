// C11: data directory edits behave like a bounded table.
#include "util.h"
#include "images.h"
using namespace u;
const char* const mc::check_id = "C11";

struct Table
{
    ref::Dir d[16]; uint32_t n; uint16_t chars, dll;
    bool exists(uint32_t id) const { return id < n && d[id].rva != 0; }
    uint64_t h() const { uint64_t x = mc::mix(n, chars); for(unsigned i = 0; i < n; ++i) x = mc::mix(x, mc::mix(d[i].rva, d[i].size)); return mc::mix(x, dll); }
};
template<typename F> static bool refused(F f) { try { f(); } catch(const pe_exception& e) { return e.get_id() == pe_exception::directory_does_not_exist; } return false; }

static void compare(mc::Ctx& c, const pe_base& pe, const Table& t, const Bytes& rest)
{
    MC_REQUIRE(c, pe.get_number_of_rvas_and_sizes() == t.n, "count", "directory count is %u, should be %u", pe.get_number_of_rvas_and_sizes(), t.n);
    for(uint32_t i = 0; i < 16; ++i)
    {
        MC_REQUIRE(c, pe.directory_exists(i) == t.exists(i), "exists", "directory %u exists: %d, should be %d", i, pe.directory_exists(i), t.exists(i));
        if(i < t.n)
        {
            MC_REQUIRE(c, pe.get_directory_rva(i) == t.d[i].rva && pe.get_directory_size(i) == t.d[i].size, "entry", "directory %u is %#x/%#x, should be %#x/%#x", i, pe.get_directory_rva(i), pe.get_directory_size(i), t.d[i].rva, t.d[i].size);
        }
        else
        {
            MC_REQUIRE(c, refused([&] { pe.get_directory_rva(i); }) && refused([&] { pe.get_directory_size(i); }), "beyond-count", "directory %u is readable with %u directories", i, t.n);
        }
    }
    static const uint32_t foreign[] = { 16, 17, 255, 0x10000, 0x7fffffff, 0x80000000, 0xffffffff };
    for(size_t k = 0; k < sizeof(foreign) / sizeof(*foreign); ++k)
    {
        const uint32_t i = foreign[k];
        MC_REQUIRE(c, !pe.directory_exists(i) && refused([&] { pe.get_directory_rva(i); }) && refused([&] { pe.get_directory_size(i); }), "foreign", "directory %#x exists", i);
    }
    MC_REQUIRE(c, pe.has_exports() == t.exists(0) && pe.has_imports() == t.exists(1) && pe.has_resources() == t.exists(2) && pe.has_exception_directory() == t.exists(3) && pe.has_security() == t.exists(4)
        && pe.has_debug() == t.exists(6) && pe.has_tls() == t.exists(9) && pe.has_config() == t.exists(10) && pe.has_bound_import() == t.exists(11) && pe.has_delay_import() == t.exists(13) && pe.is_dotnet() == t.exists(14),
        "has", "a has_...() query disagrees with the table");
    MC_REQUIRE(c, pe.has_reloc() == (t.exists(5) && !(t.chars & 1)), "has-reloc", "has_reloc() is %d with relocs_stripped=%d and directory %d", pe.has_reloc(), t.chars & 1, t.exists(5));
    MC_REQUIRE(c, pe.get_characteristics() == t.chars, "characteristics", "characteristics are %#x, should be %#x", pe.get_characteristics(), t.chars);
    MC_REQUIRE(c, pe.get_dll_characteristics() == t.dll, "dll-characteristics", "DLL characteristics are %#x, should be %#x", pe.get_dll_characteristics(), t.dll);
    // nothing else in the headers moves
    Bytes now(pe.get_nt_headers_ptr(), pe.get_sizeof_nt_header() - 128);
    ref::put16(now, 22, 0); ref::put16(now, 24 + 70, 0); ref::put32(now, now.size() - 4, 0);
    MC_REQUIRE(c, now == rest, "other-fields", "another header field changed");
}
static Bytes other_fields(const pe_base& pe)
{
    Bytes now(pe.get_nt_headers_ptr(), pe.get_sizeof_nt_header() - 128);
    ref::put16(now, 22, 0); ref::put16(now, 24 + 70, 0); ref::put32(now, now.size() - 4, 0);
    return now;
}

static const uint32_t ids[] = { 0, 1, 5, 12, 15, 6, 16, 0xffffffff };
static const uint32_t mins[] = { 0, 1, 2, 6, 13, 16, 17, 0x80000000, 0xffffffff };
static const uint32_t counts[] = { 0, 1, 6, 13, 16, 17, 0xffffffff };

static void op(mc::Ctx& c, pe_base& pe, Table& t)
{
    enum { nid = 8, nset = nid * 2, nsize = nid, nrem = nid, nstrip = 9 * 2, ncount = 7, all = nset + nsize + nrem + nstrip + ncount };
    int o = c.choose(all, "operation");
    c.step();
    if(o < nset)
    {
        const uint32_t id = ids[o / 2], v = o & 1 ? 0x1230 : 0;
        c.desc(" rva(%u,%#x)", id, v);
        const bool r = refused([&] { pe.set_directory_rva(id, v); });
        MC_REQUIRE(c, r == (id >= t.n), "set-rva", "setting the address of directory %u with %u directories: refused=%d", id, t.n, r);
        if(!r) t.d[id].rva = v;
        return;
    }
    o -= nset;
    if(o < nsize)
    {
        const uint32_t id = ids[o];
        c.desc(" size(%u)", id);
        const bool r = refused([&] { pe.set_directory_size(id, 0x44); });
        MC_REQUIRE(c, r == (id >= t.n), "set-size", "setting the size of directory %u with %u directories: refused=%d", id, t.n, r);
        if(!r) t.d[id].size = 0x44;
        return;
    }
    o -= nsize;
    if(o < nrem)
    {
        const uint32_t id = ids[o];
        c.desc(" remove(%u)", id);
        pe.remove_directory(id);
        if(t.exists(id))
        {
            t.d[id].rva = t.d[id].size = 0;
            if(id == 5) { t.chars |= 1; t.dll &= ~0x40; }
            if(id == 0) t.chars &= ~0x2000;
        }
        return;
    }
    o -= nrem;
    if(o < nstrip)
    {
        const uint32_t m = mins[o / 2]; const bool iat = o & 1;
        c.desc(" strip(%#x,%d)", m, iat);
        uint32_t want = t.n;
        while(want > m && !(t.d[want - 1].rva && !(iat && want - 1 == 12))) --want;
        const uint32_t got = pe.strip_data_directories(m, iat);
        MC_REQUIRE(c, got == want, "strip", "stripping %u directories with minimum %#x leaves %u, should leave %u", t.n, m, got, want);
        t.n = want;
        return;
    }
    o -= nstrip;
    const uint32_t v = counts[o];
    c.desc(" count(%#x)", v);
    pe.set_number_of_rvas_and_sizes(v);
    const uint32_t old = t.n;
    t.n = std::min<uint32_t>(v, 16);
    // entries that come into existence may be empty or keep what was stored there before
    for(uint32_t i = old; i < t.n && i < pe.get_number_of_rvas_and_sizes(); ++i)
        if(pe.get_directory_rva(i) == 0 && pe.get_directory_size(i) == 0) t.d[i].rva = t.d[i].size = 0;
}

static void start(mc::Ctx& c, std::unique_ptr<pe_base>& pe, Table& t)
{
    static const uint32_t starts[] = { 0, 1, 6, 13, 16 };
    const bool pe64 = c.flip("flavour");
    ref::Spec s(pe64);
    s.ndirs = c.pick(starts, "starting count");
    const int filled = c.choose(3, "filled");
    s.chars = 0x2102; s.dllchars = 0x8140;
    if(filled == 2) { s.chars = 0x0103; s.dllchars = 0x8100; }
    s.add(".text", img::pattern(0x200, 1));
    memset(&t, 0, sizeof(t));
    for(unsigned i = 0; i < s.ndirs; ++i)
        if(filled == 1 ? i != 6 : filled == 2 ? i == 0 || i == 5 || i == 12 : false) { s.dirs[i].rva = 0x1000 + i * 16; s.dirs[i].size = 8 + i; t.d[i] = s.dirs[i]; }
    t.n = s.ndirs; t.chars = s.chars; t.dll = s.dllchars;
    c.desc("%s %u directories, filled %d:", pe64 ? "PE+" : "PE", s.ndirs, filled);
    pe.reset(new pe_base(open_pe(s.build(), false, false)));
}
static void histories(mc::Ctx& c)
{
    std::unique_ptr<pe_base> pe; Table t;
    start(c, pe, t);
    const Bytes rest = other_fields(*pe);
    compare(c, *pe, t, rest);
    const int depth = mc::tier_pick(2, 3);
    for(int i = 0; i < depth; ++i)
    {
        op(c, *pe, t);
        c.state(t.h());
        compare(c, *pe, t, rest);
    }
    c.outcome(t.h());
    c.trace();
    if(t.exists(11)) return;    // the writer relocates bound imports kept in headers
    const Bytes f = write_pe(*pe);
    const ref::Img im = ref::Img::parse(f);
    MC_REQUIRE(c, im.h.ndirs == t.n && im.h.chars == t.chars && im.h.dllchars == t.dll, "written", "written header has %u directories, characteristics %#x/%#x", im.h.ndirs, im.h.chars, im.h.dllchars);
    for(unsigned i = 0; i < t.n; ++i) MC_REQUIRE(c, im.h.dirs[i].rva == t.d[i].rva && im.h.dirs[i].size == t.d[i].size, "written-entry", "written directory %u differs", i);
    pe_base q(open_pe(f, false, false));
    MC_REQUIRE(c, q.get_number_of_rvas_and_sizes() == t.n, "reopened", "reopened image has %u directories", q.get_number_of_rvas_and_sizes());
    for(unsigned i = 0; i < t.n; ++i) MC_REQUIRE(c, q.get_directory_rva(i) == t.d[i].rva && q.get_directory_size(i) == t.d[i].size && q.directory_exists(i) == t.exists(i), "reopened-entry", "reopened directory %u differs", i);
}

// Every entry on its own: set, query by name, remove, and the flags that go with it
static void every_entry(mc::Ctx& c)
{
    std::unique_ptr<pe_base> pe; Table t;
    start(c, pe, t);
    const Bytes rest = other_fields(*pe);
    const uint32_t id = c.choose(18, "directory");
    const int what = c.choose(6, "operations");
    c.desc(" directory %u operations %d", id, what);
    const bool r1 = refused([&] { pe->set_directory_rva(id, what & 1 ? 0xfffffff0 : 0x2340); });
    const bool r2 = refused([&] { pe->set_directory_size(id, 0x71); });
    MC_REQUIRE(c, r1 == (id >= t.n) && r2 == r1, "set", "setting directory %u of %u refused: %d %d", id, t.n, r1, r2);
    if(!r1) { t.d[id].rva = what & 1 ? 0xfffffff0 : 0x2340; t.d[id].size = 0x71; }
    compare(c, *pe, t, rest);
    if(what >= 2)
    {
        const uint32_t other = what < 4 ? id : (id + 5) % 16;
        pe->remove_directory(other);
        if(t.exists(other))
        {
            t.d[other].rva = t.d[other].size = 0;
            if(other == 5) { t.chars |= 1; t.dll &= ~0x40; }
            if(other == 0) t.chars &= ~0x2000;
        }
        compare(c, *pe, t, rest);
    }
    for(uint32_t m = 0; m <= 16; ++m)
        for(int iat = 0; iat < 2; ++iat)
        {
            pe_base q(*pe); Table u = t;
            while(u.n > m && !(u.d[u.n - 1].rva && !(iat && u.n - 1 == 12))) --u.n;
            const uint32_t got = q.strip_data_directories(m, iat != 0);
            MC_REQUIRE(c, got == u.n, "strip", "stripping to minimum %u (table %d) returns %u, should return %u", m, iat, got, u.n);
            compare(c, q, u, rest);
            c.step();
        }
    c.outcome(t.h());
    c.trace();
}
namespace mc
{
const Part parts[] = {
    { "table-histories", histories, 0, 0, "all sequences of 2 (3) of 57 table operations (set, remove, strip, change the count, on existing and foreign entries) from 5 counts, 3 fillings and both flavours, the whole table compared after each, then written and reopened; a state is the model table" },
    { "every-entry", every_entry, 0, 0, "every directory number 0..17 set, removed and stripped with every minimum 0..16" },
};
const int part_count = sizeof(parts) / sizeof(parts[0]);
}
