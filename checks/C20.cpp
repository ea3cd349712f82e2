// C20: rebuilt bound imports read back unchanged.
#include "reb.h"
using namespace u;
const char* const mc::check_id = "C20";

struct Ref { Bytes name; uint32_t time; };
struct Mod { Bytes name; uint32_t time; std::vector<Ref> refs; };
typedef std::vector<Mod> Mods;

static Mods read(const ref::Mem& m, uint32_t rva)
{
    Mods r;
    for(uint32_t at = rva; ; )
    {
        Mod x; x.time = m.r32(at);
        const uint32_t name = m.r16(at + 4), n = m.r16(at + 6);
        if(!x.time && !name) break;
        x.name = m.cstr(rva + name);
        at += 8;
        for(uint32_t k = 0; k < n; ++k, at += 8) { Ref f; f.time = m.r32(at); f.name = m.cstr(rva + m.r16(at + 4)); x.refs.push_back(f); }
        r.push_back(x);
    }
    return r;
}
// Bound imports as a linker lays them out; gap bytes between structures and names
static Bytes encode(const Mods& v, uint32_t gap)
{
    uint32_t n = 8;
    for(size_t i = 0; i < v.size(); ++i) n += 8 + 8 * static_cast<uint32_t>(v[i].refs.size());
    Bytes s, names(gap, 'g');
    for(size_t i = 0; i < v.size(); ++i)
    {
        ref::app32(s, v[i].time); ref::app16(s, n + names.size()); ref::app16(s, v[i].refs.size());
        names += v[i].name; names += '\0';
        for(size_t k = 0; k < v[i].refs.size(); ++k) { ref::app32(s, v[i].refs[k].time); ref::app16(s, n + names.size()); ref::app16(s, 0x5555); names += v[i].refs[k].name; names += '\0'; }
    }
    s += Bytes(8, 0);
    return s + names;
}
static Mods from_library(const pe_base& pe)
{
    const bound_import_module_list l = get_bound_import_module_list(pe);
    Mods r;
    for(size_t i = 0; i < l.size(); ++i)
    {
        Mod m; m.name = l[i].get_module_name(); m.time = l[i].get_timestamp();
        const bound_import::ref_list& f = l[i].get_module_ref_list();
        for(size_t k = 0; k < f.size(); ++k) { Ref x; x.name = f[k].get_module_name(); x.time = f[k].get_timestamp(); m.refs.push_back(x); }
        if(l[i].get_module_ref_count() != f.size()) throw std::logic_error("module count");
        r.push_back(m);
    }
    return r;
}
static bound_import_module_list to_library(const Mods& v)
{
    bound_import_module_list r;
    for(size_t i = 0; i < v.size(); ++i)
    {
        bound_import b(i % 2 ? v[i].name : "?", i % 2 ? v[i].time : 7);
        b.set_module_name(v[i].name); b.set_timestamp(v[i].time);
        b.add_module_ref(bound_import_ref("?", 1)); b.clear_module_refs();
        for(size_t k = 0; k < v[i].refs.size(); ++k)
        {
            if(k % 2) { bound_import_ref f; f.set_module_name(v[i].refs[k].name); f.set_timestamp(v[i].refs[k].time); b.get_module_ref_list().push_back(f); }
            else b.add_module_ref(bound_import_ref(v[i].refs[k].name, v[i].refs[k].time));
        }
        r.push_back(b);
    }
    return r;
}
static void same(mc::Ctx& c, const char* who, const Mods& g, const Mods& w)
{
    MC_REQUIRE(c, g.size() == w.size(), "modules", "%s finds %zu modules, should find %zu", who, g.size(), w.size());
    for(size_t i = 0; i < g.size(); ++i)
    {
        MC_REQUIRE(c, g[i].name == w[i].name && g[i].time == w[i].time, "module", "%s: module %zu is \"%s\" %#x, should be \"%s\" %#x", who, i, g[i].name.c_str(), g[i].time, w[i].name.c_str(), w[i].time);
        MC_REQUIRE(c, g[i].refs.size() == w[i].refs.size(), "references", "%s: module %zu has %zu references, should have %zu", who, i, g[i].refs.size(), w[i].refs.size());
        for(size_t k = 0; k < g[i].refs.size(); ++k)
            MC_REQUIRE(c, g[i].refs[k].name == w[i].refs[k].name && g[i].refs[k].time == w[i].refs[k].time, "reference", "%s: reference %zu of module %zu is \"%s\" %#x, should be \"%s\" %#x", who, k, i, g[i].refs[k].name.c_str(), g[i].refs[k].time, w[i].refs[k].name.c_str(), w[i].refs[k].time);
    }
}
static uint64_t hash_of(const Mods& v)
{
    uint64_t h = v.size();
    for(size_t i = 0; i < v.size(); ++i)
    {
        h = mc::mix(h, mc::mix(mc::hash(v[i].name), v[i].time));
        for(size_t k = 0; k < v[i].refs.size(); ++k) h = mc::mix(h, mc::mix(mc::hash(v[i].refs[k].name), v[i].refs[k].time));
        h = mc::mix(h, v[i].refs.size());
    }
    return h;
}
struct Set { uint32_t off; bool hdr, strip; };
static void run(mc::Ctx& c, pe_base& pe, size_t at, const Mods& in, const Set& st)
{
    reb::Snap before = reb::snap(pe);
    c.step();
    const image_directory dir = rebuild_bound_imports(pe, to_library(in), pe.get_image_sections()[at], st.off, st.hdr, st.strip);
    const uint32_t va = pe.get_image_sections()[at].get_virtual_address(), pos = va + static_cast<uint32_t>(ref::up(st.off, 4)), size = static_cast<uint32_t>(encode(in, 0).size());
    MC_REQUIRE(c, dir.get_rva() == pos && dir.get_size() == size, "directory", "directory is %#x+%#x, should be %#x+%#x", dir.get_rva(), dir.get_size(), pos, size);
    reb::inside_section(c, pe, at, dir);
    reb::untouched(c, pe, before, at, pos - va, pos - va + size);
    reb::headers_kept(c, pe, before, st.hdr ? 11 : -1, pos, size);
    same(c, "reader", read(mem_of(pe), pos), in);
    if(!st.hdr) { pe.set_directory_rva(11, pos); pe.set_directory_size(11, size); }
    same(c, "library", from_library(pe), in);
    const Bytes f = write_pe(pe);
    const ref::Img im = ref::Img::parse(f);
    MC_REQUIRE(c, im.h.dirs[11].rva == pos && im.h.dirs[11].size == size, "written-directory", "written directory differs");
    same(c, "reader (written)", read(ref::Mem::map(im), pos), in);
    pe_base q(open_pe(f, false, false));
    same(c, "library (reopened)", from_library(q), in);
    rebuild_bound_imports(q, get_bound_import_module_list(q), q.get_image_sections()[at], st.off, true, st.strip);
    same(c, "library (rebuilt again)", from_library(q), in);
    c.outcome(mc::mix(hash_of(in), pos));
    c.trace();
}
static const char* const names[] = { "A.dll", "", "a.dll" };
static Mods choose_list(mc::Ctx& c, int max_mods, int max_refs)
{
    static const uint32_t times[] = { 0x11111111, 0, 0xffffffff };
    Mods v;
    const int n = c.choose(max_mods + 1, "modules");
    for(int i = 0; i < n; ++i)
    {
        Mod m; m.name = names[c.choose(3, "name")]; m.time = times[c.choose(i ? 2 : 3, "time")];
        const int k = c.choose(max_refs + 1, "references");
        c.desc(" \"%s\" %#x", m.name.c_str(), m.time);
        for(int j = 0; j < k; ++j) { Ref f; f.name = names[c.choose(i + j < 2 ? 3 : 1, "reference")]; f.time = times[c.choose(2, "time")] + j; m.refs.push_back(f); c.desc(" (\"%s\" %#x)", f.name.c_str(), f.time); }
        v.push_back(m);
    }
    return v;
}
static void lists(mc::Ctx& c)
{
    const bool pe64 = c.flip("flavour");
    std::unique_ptr<pe_base> pe;
    const int lay = c.dev(reb::layouts, "layout");
    Set st;
    static const uint32_t offs[] = { 0, 3, 0x16, 0x101 };
    st.off = offs[c.dev(4, "offset")]; st.hdr = !c.dev(2, "headers"); st.strip = !c.dev(2, "strip");
    const size_t at = reb::layout(c, pe, lay, pe64);
    if(lay == 5) return;   // the bound import entry does not exist there
    c.desc(" off=%#x hdr=%d strip=%d:", st.off, st.hdr, st.strip);
    const Mods v = choose_list(c, 2, c.devs_left() == c.dev_budget ? 2 : mc::tier_pick(1, 2));
    run(c, *pe, at, v, st);
}
// Many modules, references and long names, up to what 16-bit offsets and counts can say
static void sizes(mc::Ctx& c)
{
    const bool pe64 = c.flip("flavour");
    const int lay = c.choose(5, "layout"), mode = c.choose(4, "what"), k = c.choose(mc::tier_pick(130, 600), "size");
    static const uint32_t big[] = { 4090, 4095, 4096, 4097, 5460, 5461, 5462, 6000, 8191, 8192, 65485, 65486, 65487, 65491, 65492, 65493, 65508, 65509, 65510, 65511, 65534, 65535, 65536, 65537, 65600, 70000 };
    std::unique_ptr<pe_base> pe;
    const size_t at = reb::layout(c, pe, lay == 3 ? 8 : lay == 4 ? reb::big_dirty : lay, pe64);
    Mods v;
    const uint32_t n = k < 26 && lay == 0 && pe64 ? big[k] : k;
    if(mode == 0) for(uint32_t i = 0; i < n; ++i) { Mod m; m.name = Bytes(1 + i % 7, 'm'); m.time = i; v.push_back(m); }
    if(mode == 1) { Mod m; m.name = "one"; m.time = 5; Ref f; for(uint32_t i = 0; i < n; ++i) { f.name = i % 5 ? "" : "r"; f.time = i; m.refs.push_back(f); } v.push_back(m); }
    if(mode == 2) { Mod m; m.name = Bytes(n, 'L'); m.time = 1; v.push_back(m); m.name = "after"; v.push_back(m); }
    if(mode == 3) { Mod m; m.name = "x"; m.time = 1; Ref f; f.name = Bytes(n, 'R'); f.time = 2; m.refs.push_back(f); f.name = "after"; m.refs.push_back(f); v.push_back(m); m.refs.clear(); m.name = "end"; v.push_back(m); }
    c.desc(" mode %d size %u", mode, n);
    const Set st = { 0, true, true };
    // the last name starts at
    const Bytes e = encode(v, 0);
    const size_t last = v.empty() ? 0 : e.size() - 1 - (v.back().refs.empty() ? v.back().name.size() : v.back().refs.back().name.size());
    bool expressible = last <= 0xffff;
    for(size_t i = 0; i < v.size(); ++i) if(v[i].refs.size() > 0xffff) expressible = false;
    const Bytes fp = fingerprint(*pe);
    try { run(c, *pe, at, v, st); MC_REQUIRE(c, expressible, "not-refused", "a list that 16-bit offsets cannot express is not refused"); }
    catch(const pe_exception& x)
    {
        reb::unchanged(c, *pe, fp, "the list");
        MC_REQUIRE(c, !expressible || ((lay == 1 || lay == 3) && x.get_id() == pe_exception::insufficient_space && e.size() > 0x600), "refused", "refused: %s", x.what());
        c.outcome(mc::mix(2, last));
    }
}
// Bound imports that live in the headers stay readable in the written file
static void headers(mc::Ctx& c)
{
    const bool pe64 = c.flip("flavour");
    const uint32_t gap = c.choose(3, "gap"), place = c.choose(6, "place"), extra = c.choose(3, "size");
    const bool chg = c.flip("recalculate header size"), strip = c.flip("strip stub");
    const int edit = c.choose(4, "edit");
    const bool tall = (mc::thorough() || (!gap && extra != 1)) && c.flip("headers past 64 KB");
    const Mods v = tall ? choose_list(c, 1, 1) : choose_list(c, mc::tier_pick(1, 2), mc::tier_pick(2, 1));
    ref::Spec s(pe64);
    const uint32_t hs = tall ? 0x10400 : 0x400;
    if(tall) { s.hdrsize = hs; s.stub = img::pattern(0x10000, 5); s.lfanew = 0x10040; }
    const bool inside = place >= 4;                     // in the first section, which follows the headers directly
    if(inside && !mc::thorough() && (gap || extra)) return;
    if(inside) s.secalign = 0x200;
    const Bytes b = encode(v, gap) + Bytes(extra * 5, '\0');
    if(b.size() > 0x200) return;
    Bytes text = img::pattern(0x400, 1);
    if(inside) text.replace(place == 4 ? 0 : 4, b.size(), b);
    s.add(".text", text);
    s.add(".data", img::pattern(0x200, 2));
    const uint32_t table_end = static_cast<uint32_t>(s.headers().size());
    const uint32_t at[] = { table_end, hs - 0x100, hs - 0xe0, hs - static_cast<uint32_t>(b.size()), hs, hs + 4 };
    if(at[place] < table_end || (!inside && at[place] + b.size() > hs)) return;
    s.dirs[11].rva = at[place]; s.dirs[11].size = static_cast<uint32_t>(b.size());
    Bytes f = s.build();
    if(!inside) f.replace(at[place], b.size(), b);
    c.desc(" at %#x+%#zx chg=%d strip=%d edit=%d", at[place], b.size(), chg, strip, edit);
    pe_base pe(open_pe(f, false, false));
    c.step();
    same(c, "library (opened)", from_library(pe), v);
    if(edit == 1) add_sec(pe, "new", Bytes(0x30, 'n'));
    if(edit == 2) pe.set_checksum(0x1234);
    if(edit == 3) { section& n = add_sec(pe, "new", Bytes(1, 'n')); rebuild_bound_imports(pe, get_bound_import_module_list(pe), n, 0x11); }
    Bytes w = write_pe(pe, strip, chg);
    for(int round = 0; round < 2; ++round)
    {
        const ref::Img im = ref::Img::parse(w);
        same(c, round ? "reader (written again)" : "reader (written)", read(ref::Mem::map(im), im.h.dirs[11].rva), v);
        pe_base q(open_pe(w, false, false));
        same(c, round ? "library (reopened again)" : "library (reopened)", from_library(q), v);
        for(size_t i = 0; i < 2; ++i) MC_REQUIRE(c, ref::Mem::map(im).bytes(im.h.secs[i].va, i ? 0x200 : 0x400) == (i ? img::pattern(0x200, 2) : text), "section", "section %zu changed", i);
        if(inside && edit != 3) MC_REQUIRE(c, im.h.dirs[11].rva == at[place] && im.h.dirs[11].size == b.size(), "moved", "the directory moved from %#x to %#x", at[place], im.h.dirs[11].rva);
        w = write_pe(q, strip, chg);
    }
    same(c, "library (after writing)", from_library(pe), v);
    c.outcome(mc::mix(hash_of(v), mc::hash(w)));
    c.trace();
}
namespace mc
{
const Part parts[] = {
    { "lists", lists, 1, 2, "all lists of up to 2 modules with up to 2 references over 3 names and 3 times, with up to 1 (2) settings changed (9 layouts, offsets, header update, stripping); read by a loader-style reader and by the library, before and after writing, and rebuilt once more" },
    { "sizes", sizes, 0, 0, "0..129 (0..599) and up to 70000 modules, references and name lengths in 5 layouts; refused exactly when they do not fit or 16-bit offsets and counts cannot express them" },
    { "headers", headers, 0, 0, "all lists of up to 1 module with up to 2 references (2 modules with up to 1) stored in the headers at 4 places with 3 gaps, or at the beginning of a section that follows them directly, in headers shorter and longer than 64 KB, written with and without recalculated headers and stub after 4 edits, twice" },
};
const int part_count = sizeof(parts) / sizeof(parts[0]);
}
