// C15: rebuilt exports read back unchanged and can be searched.
#include "reb.h"
using namespace u;
const char* const mc::check_id = "C15";

struct Fn { uint32_t ordinal, rva; bool named; Bytes name, fwd; };
typedef std::vector<Fn> Fns;
struct Info { uint32_t chars, ts, base; uint16_t maj, min; Bytes name; };

// ---- loader-style reader: by ordinal, and by binary search over the name table
struct Reader
{
    const ref::Mem& m; uint32_t rva, size, base, nf, nn, f, n, o; Info info;
    Reader(const ref::Mem& mem, uint32_t r, uint32_t s) : m(mem), rva(r), size(s)
    {
        info.chars = m.r32(r); info.ts = m.r32(r + 4); info.maj = m.r16(r + 8); info.min = m.r16(r + 10); info.name = m.cstr(m.r32(r + 12));
        base = info.base = m.r32(r + 16); nf = m.r32(r + 20); nn = m.r32(r + 24); f = m.r32(r + 28); n = m.r32(r + 32); o = m.r32(r + 36);
    }
    bool ordinal(uint32_t ord, Fn& x) const
    {
        if(ord < base || ord - base >= nf) return false;
        x.rva = m.r32(f + 4 * (ord - base)); x.ordinal = ord; x.named = false; x.fwd.clear();
        if(!x.rva) return false;
        if(x.rva >= rva && x.rva < rva + size) x.fwd = m.cstr(x.rva);
        return true;
    }
    bool name(const Bytes& s, Fn& x) const
    {
        uint32_t lo = 0, hi = nn;
        while(lo < hi)
        {
            const uint32_t mid = (lo + hi) / 2;
            const int d = strcmp(m.cstr(m.r32(n + 4 * mid)).c_str(), s.c_str());
            if(!d) { if(!ordinal(base + m.r16(o + 2 * mid), x)) return false; x.named = true; x.name = s; return true; }
            if(d < 0) lo = mid + 1; else hi = mid;
        }
        return false;
    }
    Fns all() const
    {
        Fns r;
        for(uint32_t i = 0; i < nf; ++i)
        {
            Fn x;
            if(!ordinal(base + i, x)) continue;
            for(uint32_t k = 0; k < nn; ++k) if(m.r16(o + 2 * k) == i) { x.named = true; x.name = m.cstr(m.r32(n + 4 * k)); }
            r.push_back(x);
        }
        return r;
    }
};
static void same(mc::Ctx& c, const char* who, const Fns& got, const Fns& want)
{
    MC_REQUIRE(c, got.size() == want.size(), "count", "%s finds %zu functions, should find %zu", who, got.size(), want.size());
    for(size_t i = 0; i < got.size(); ++i)
    {
        MC_REQUIRE(c, got[i].ordinal == want[i].ordinal, "ordinal", "%s: function %zu has ordinal %u, should have %u", who, i, got[i].ordinal, want[i].ordinal);
        MC_REQUIRE(c, got[i].named == want[i].named && got[i].name == want[i].name, "name", "%s: ordinal %u is \"%s\", should be \"%s\"", who, got[i].ordinal, got[i].name.c_str(), want[i].name.c_str());
        MC_REQUIRE(c, got[i].fwd == want[i].fwd, "forwarder", "%s: ordinal %u is forwarded to \"%s\", should be \"%s\"", who, got[i].ordinal, got[i].fwd.c_str(), want[i].fwd.c_str());
        if(want[i].fwd.empty()) MC_REQUIRE(c, got[i].rva == want[i].rva, "address", "%s: ordinal %u is at %#x, should be at %#x", who, got[i].ordinal, got[i].rva, want[i].rva);
    }
}
static void same_info(mc::Ctx& c, const char* who, const Info& a, const Info& b)
{
    MC_REQUIRE(c, a.chars == b.chars && a.ts == b.ts && a.maj == b.maj && a.min == b.min && a.name == b.name && a.base == b.base, "info", "%s: library is \"%s\" %#x %#x %u.%u base %u, should be \"%s\" %#x %#x %u.%u base %u", who,
        a.name.c_str(), a.chars, a.ts, a.maj, a.min, a.base, b.name.c_str(), b.chars, b.ts, b.maj, b.min, b.base);
}
static Fns from_library(mc::Ctx& c, const pe_base& pe, Info& info, uint32_t* nf, uint32_t* nn)
{
    export_info e;
    const exported_functions_list v = get_exported_functions(pe, e);
    const exported_functions_list w = get_exported_functions(pe);
    MC_REQUIRE(c, v.size() == w.size(), "overloads", "both readers return different counts");
    info.chars = e.get_characteristics(); info.ts = e.get_timestamp(); info.maj = e.get_major_version(); info.min = e.get_minor_version(); info.name = e.get_name(); info.base = e.get_ordinal_base();
    *nf = e.get_number_of_functions(); *nn = e.get_number_of_names();
    Fns r;
    for(size_t i = 0; i < v.size(); ++i)
    {
        Fn x; x.ordinal = v[i].get_ordinal(); x.rva = v[i].get_rva(); x.named = v[i].has_name(); x.name = v[i].get_name(); x.fwd = v[i].is_forwarded() ? v[i].get_forwarded_name() : Bytes();
        if(x.named) MC_REQUIRE(c, v[i].get_name_ordinal() == static_cast<uint16_t>(x.ordinal - info.base), "name-ordinal", "name ordinal is %u", v[i].get_name_ordinal());
        r.push_back(x);
    }
    return r;
}
static exported_functions_list to_library(const Fns& v)
{
    exported_functions_list r;
    for(size_t i = 0; i < v.size(); ++i)
    {
        exported_function f; f.set_ordinal(static_cast<uint16_t>(v[i].ordinal)); f.set_rva(v[i].rva);
        if(v[i].named) f.set_name(v[i].name);
        if(!v[i].fwd.empty()) f.set_forwarded_name(v[i].fwd);
        r.push_back(f);
    }
    return r;
}
static export_info lib_info(const Info& i)
{
    export_info e;
    e.set_characteristics(i.chars); e.set_timestamp(i.ts); e.set_major_version(i.maj); e.set_minor_version(i.min); e.set_name(i.name); e.set_ordinal_base(i.base);
    // these do not matter for rebuilding
    e.set_number_of_functions(77); e.set_number_of_names(88); e.set_rva_of_functions(0x99); e.set_rva_of_names(0xaa); e.set_rva_of_name_ordinals(0xbb);
    return e;
}
static void verify(mc::Ctx& c, const ref::Mem& m, uint32_t rva, uint32_t size, const char* who, const Fns& want, const Info& info)
{
    const Reader r(m, rva, size);
    same_info(c, who, r.info, info);
    same(c, who, r.all(), want);
    size_t names = 0;
    for(size_t i = 0; i < want.size(); ++i)
    {
        Fn x;
        MC_REQUIRE(c, r.ordinal(want[i].ordinal, x), "by-ordinal", "%s does not find ordinal %u", who, want[i].ordinal);
        if(!want[i].named) continue;
        ++names;
        MC_REQUIRE(c, r.name(want[i].name, x) && x.ordinal == want[i].ordinal, "by-name", "%s does not find \"%s\" by binary search", who, want[i].name.c_str());
    }
    MC_REQUIRE(c, r.nn == names && r.nf == (want.empty() ? 0 : want.back().ordinal - want[0].ordinal + 1), "counts", "%s: %u functions and %u names", who, r.nf, r.nn);
    Fn x;
    for(uint32_t k = 0; k < r.nn; ++k) MC_REQUIRE(c, k == 0 || strcmp(m.cstr(m.r32(r.n + 4 * k - 4)).c_str(), m.cstr(m.r32(r.n + 4 * k)).c_str()) < 0, "sorted", "%s: name table is not sorted at %u", who, k);
    MC_REQUIRE(c, !r.name("no such name", x), "by-name", "%s finds a name that does not exist", who);
}
static uint64_t hash_of(const Fns& v)
{
    uint64_t h = v.size();
    for(size_t i = 0; i < v.size(); ++i) h = mc::mix(h, mc::mix(v[i].ordinal * 2 + v[i].named, mc::mix(mc::hash(v[i].name), mc::hash(v[i].fwd))));
    return h;
}
struct Set { uint32_t off; bool hdr, strip; };
static void rebuild_and_check(mc::Ctx& c, pe_base& pe, size_t at, const Fns& list, Info info, const Set& st)
{
    const reb::Snap before = reb::snap(pe);
    c.step();
    const image_directory dir = rebuild_exports(pe, lib_info(info), to_library(list), pe.get_image_sections()[at], st.off, st.hdr, st.strip);
    Fns want = list;
    std::sort(want.begin(), want.end(), [](const Fn& a, const Fn& b) { return a.ordinal < b.ordinal; });
    if(!want.empty()) info.base = want[0].ordinal;
    const uint32_t va = pe.get_image_sections()[at].get_virtual_address();
    MC_REQUIRE(c, dir.get_rva() >= va + st.off, "directory-start", "directory %#x lies before the offset", dir.get_rva());
    reb::inside_section(c, pe, at, dir);
    reb::untouched(c, pe, before, at, dir.get_rva() - va, dir.get_rva() - va + dir.get_size());
    reb::headers_kept(c, pe, before, st.hdr ? 0 : -1, dir.get_rva(), dir.get_size());
    verify(c, mem_of(pe), dir.get_rva(), dir.get_size(), "reader", want, info);
    if(!st.hdr) { pe.set_directory_rva(0, dir.get_rva()); pe.set_directory_size(0, dir.get_size()); }
    Info gi; uint32_t nf, nn;
    same(c, "library", from_library(c, pe, gi, &nf, &nn), want);
    same_info(c, "library", gi, info);
    const Bytes f = write_pe(pe);
    const ref::Img im = ref::Img::parse(f);
    MC_REQUIRE(c, im.h.dirs[0].rva == dir.get_rva() && im.h.dirs[0].size == dir.get_size(), "written-directory", "written directory differs");
    verify(c, ref::Mem::map(im), dir.get_rva(), dir.get_size(), "reader (written)", want, info);
    pe_base q(open_pe(f, false, false));
    same(c, "library (reopened)", from_library(c, q, gi, &nf, &nn), want);
    same_info(c, "library (reopened)", gi, info);
    c.outcome(mc::mix(hash_of(want), dir.get_size()));
    c.trace();
}
static const char* const names[] = { "a", "ab", "B", "A", "_z@4", "\xe4\x80", "aa", "b" };
static Fns choose_list(mc::Ctx& c, int max, uint32_t code)
{
    static const uint32_t ords[] = { 1, 2, 3, 7, 0, 65535 };
    Fns r;
    const int n = c.choose(max + 1, "functions");
    for(int i = 0; i < n; ++i)
    {
        Fn f; f.rva = code + 0x10 * i; f.ordinal = ords[c.choose(5, "ordinal") + (i == 1 ? 1 : 0)];
        const int kind = c.choose(4, "kind");
        f.named = kind & 1;
        if(f.named) f.name = names[c.choose(i == 0 ? 3 : 8, "name")];
        if(kind & 2) f.fwd = i ? "OTHER.#12" : "NTDLL.RtlForward";
        c.desc(" %u\"%s\"%s", f.ordinal, f.name.c_str(), f.fwd.c_str());
        r.push_back(f);
    }
    return r;
}
static Info choose_info(mc::Ctx& c)
{
    Info i = { 0, 0x11111111, 1, 0, 0, "lib.dll" };
    static const uint32_t bases[] = { 1, 0, 5, 0xffff, 0x80000000, 0xffffffff };
    i.base = bases[c.dev(6, "base")];
    if(c.dev(2, "versions")) { i.chars = 0xffffffff; i.ts = 0x80000001; i.maj = 0xffff; i.min = 0x8001; }
    static const char* const n[] = { "lib.dll", "x", "a much longer library name.with.dots.dll" };
    i.name = n[c.dev(3, "library name")];
    return i;
}
static bool duplicates(const Fns& v, int* id)
{
    for(size_t i = 0; i < v.size(); ++i)
        for(size_t k = 0; k < i; ++k)
        {
            if(v[i].ordinal == v[k].ordinal) { *id = pe_exception::duplicate_exported_function_ordinal; return true; }
            if(v[i].named && v[k].named && v[i].name == v[k].name) { *id = pe_exception::duplicate_exported_function_name; return true; }
        }
    return false;
}
static void lists(mc::Ctx& c)
{
    const bool pe64 = c.flip("flavour");
    std::unique_ptr<pe_base> pe;
    const int lay = c.dev(reb::layouts, "layout");
    Set st;
    static const uint32_t offs[] = { 0, 3, 0x101 };
    st.off = offs[c.dev(3, "offset")]; st.hdr = !c.dev(2, "headers"); st.strip = !c.dev(2, "strip");
    const size_t at = reb::layout(c, pe, lay, pe64);
    const Info info = choose_info(c);
    c.desc(" off=%#x hdr=%d strip=%d base=%u \"%s\":", st.off, st.hdr, st.strip, info.base, info.name.c_str());
    const Fns v = choose_list(c, mc::tier_pick(2, c.devs_left() == 1 ? 3 : 2), pe->get_image_sections()[0].get_virtual_address());
    // helpers work on any list
    {
        const exported_functions_list e = to_library(v);
        uint32_t lo = 65535, hi = 0;
        for(size_t i = 0; i < v.size(); ++i) { lo = std::min(lo, v[i].ordinal); hi = std::max(hi, v[i].ordinal); }
        if(v.empty()) lo = 0;
        MC_REQUIRE(c, get_export_ordinal_limits(e) == std::make_pair(uint16_t(lo), uint16_t(hi)), "limits", "ordinal limits are wrong");
        for(int k = 0; k < 8; ++k)
        {
            bool x = false; for(size_t i = 0; i < v.size(); ++i) if(v[i].named && v[i].name == names[k]) x = true;
            MC_REQUIRE(c, exported_name_exists(names[k], e) == x, "name-exists", "exported_name_exists(\"%s\") is wrong", names[k]);
        }
        for(uint32_t k = 0; k < 9; ++k)
        {
            bool x = false; for(size_t i = 0; i < v.size(); ++i) if(v[i].ordinal == k) x = true;
            MC_REQUIRE(c, exported_ordinal_exists(static_cast<uint16_t>(k), e) == x, "ordinal-exists", "exported_ordinal_exists(%u) is wrong", k);
        }
    }
    // up to 65536 slots fit the last section only
    int id = 0;
    if(duplicates(v, &id))
    {
        const Bytes fp = fingerprint(*pe);
        bool refused = false;
        try { rebuild_exports(*pe, lib_info(info), to_library(v), pe->get_image_sections()[at], st.off, st.hdr, st.strip); }
        catch(const pe_exception& e) { refused = e.get_id() == pe_exception::duplicate_exported_function_name || e.get_id() == pe_exception::duplicate_exported_function_ordinal; }
        MC_REQUIRE(c, refused, "duplicates", "a list with duplicates is not refused");
        reb::unchanged(c, *pe, fp, "the list with duplicates");
        c.step();
        c.outcome(mc::mix(hash_of(v), 1));
        return;
    }
    uint32_t lo = 65535, hi = 0;
    for(size_t i = 0; i < v.size(); ++i) { lo = std::min(lo, v[i].ordinal); hi = std::max(hi, v[i].ordinal); }
    if(hi > lo && hi - lo > 1000 && (lay == 1 || pe64 || c.devs_left() < c.dev_budget)) return;   // big tables once
    rebuild_and_check(c, *pe, at, v, info, st);
}
// Three and four functions: orders of ordinals and names
static void permutations(mc::Ctx& c)
{
    const int n = mc::tier_pick(5, 6);
    std::vector<int> left, order;
    for(int i = 0; i < n; ++i) left.push_back(i);
    Fns v;
    const int gap = c.choose(3, "gaps"), base = c.choose(3, "first ordinal"), forwards = c.choose(3, "forwards"), unnamed = c.choose(3, "unnamed");
    static const int first[] = { 1, 0, 300 };
    for(int i = 0; i < n; ++i)
    {
        const int k = c.choose(static_cast<int>(left.size()), "order");
        Fn f; f.ordinal = first[base] + left[k] * (1 + gap * gap) + (left[k] > 1 ? gap : 0); f.rva = 0x1001 + 16 * i;
        left.erase(left.begin() + k);
        f.named = unnamed == 0 || (i + unnamed) % 2;
        if(f.named) f.name = names[i];
        if(forwards && i % forwards == 0) f.fwd = Bytes("F.") + names[i];
        c.desc(" %u\"%s\"%s", f.ordinal, f.name.c_str(), f.fwd.c_str());
        v.push_back(f);
    }
    std::unique_ptr<pe_base> pe;
    const size_t at = reb::layout(c, pe, 0, false);
    const Info info = { 0, 1, 1, 2, 3, "perm.dll" };
    const Set st = { 0, true, true };
    rebuild_and_check(c, *pe, at, v, info, st);
}
// Sizes of tables and names, in sections with and without room
static void sizes(mc::Ctx& c)
{
    const bool pe64 = c.flip("flavour");
    const int lay = c.choose(6, "layout"), mode = c.choose(2, "what"), most = mc::tier_pick(220, 1500), k = c.choose(most + (lay == 0 && mode && pe64 ? 8 : 0), "size");
    static const uint32_t big[] = { 65533, 65534, 65535, 65536, 65537, 65540, 70000, 131072 };
    std::unique_ptr<pe_base> pe;
    const size_t at = reb::layout(c, pe, lay == 5 ? reb::big_dirty : lay, pe64);
    const uint32_t code = pe->get_image_sections()[0].get_virtual_address();
    Fns v;
    if(mode == 0) for(int i = 0; i < k; ++i) { char t[24]; snprintf(t, sizeof t, "n%d", (i * 37) % 1999); Fn f; f.ordinal = 10 + i; f.rva = code + i % 0x31; f.named = i % 3 != 0; if(f.named) f.name = t; if(i % 5 == 0) f.fwd = "X.y"; v.push_back(f); }
    else { Fn f; f.ordinal = 1; f.rva = code; f.named = true; f.name = Bytes(k < most ? 1 + k * 5 : big[k - most], 'q'); v.push_back(f); f.ordinal = 9; f.name = "r"; f.fwd = Bytes(k < most ? 1 + k : big[k - most], 'F'); v.push_back(f); f.ordinal = 12; f.name = "s"; f.fwd.clear(); v.push_back(f); }
    c.desc(" mode %d size %d", mode, k);
    const Info info = { 1, 2, 3, 4, 5, "sizes.dll" };
    const Set st = { 0, true, true };
    const Bytes fp = fingerprint(*pe);
    try { rebuild_and_check(c, *pe, at, v, info, st); }
    catch(const pe_exception& e)
    {
        MC_REQUIRE(c, lay == 1 && e.get_id() == pe_exception::insufficient_space, "refused", "refused: %s", e.what());
        reb::unchanged(c, *pe, fp, "the list that does not fit");
        uint64_t need = 40 + 10; for(size_t i = 0; i < v.size(); ++i) need += (v[i].named ? v[i].name.size() + 7 : 0) + (v[i].fwd.empty() ? 0 : v[i].fwd.size() + 1);
        if(!v.empty()) need += 4 * (v.back().ordinal - v[0].ordinal + 1);
        MC_REQUIRE(c, need > 0x600, "refused-room", "%llu bytes are refused in a section of 0x600", (unsigned long long)need);
        c.outcome(2);
    }
}
// Ordinals without a function between others, in a section that is not zero there
static void gaps(mc::Ctx& c)
{
    const bool pe64 = c.flip("flavour");
    static const uint32_t wide[] = { 511, 512, 1023, 1024, 1025, 4095, 4096, 4097, 8192, 16383, 16384, 16385, 20000, 32767, 32768, 65535 };
    const int few = mc::tier_pick(80, 500), k = c.choose(few + 16, "gap"), kind = c.choose(4, "kind"), third = c.choose(3, "third function");
    const uint32_t gap = k < few ? k : wide[k - few];
    ref::Spec s(pe64);
    s.add(".text", img::pattern(0x200, 1));
    s.add(".last", Bytes(gap < 500 ? 0x1800 : 0x60000, '\xee'));
    pe_base pe(open_pe(s.build(), false, false));
    Fns v;
    Fn f; f.rva = 0x1010; f.ordinal = third == 2 ? 0 : 1; f.named = kind & 1; if(f.named) f.name = "first"; if(kind & 2) f.fwd = "OTHER.x"; v.push_back(f);
    f.rva = 0x1020; f.ordinal += gap + 1; f.name = f.named ? "second" : ""; f.fwd.clear();
    if(f.ordinal > 0xffff) return;
    v.push_back(f);
    if(third) { f.ordinal += gap / 2 + 1; f.rva = 0x1030; f.named = true; f.name = "a"; if(f.ordinal <= 0xffff) v.push_back(f); std::swap(v[0], v[1]); }
    c.desc(" gap %u kind %d third %d", gap, kind, third);
    const Info info = { 0, 1, 1, 2, 3, "gaps.dll" };
    const Set st = { static_cast<uint32_t>(k % 7), true, true };
    rebuild_and_check(c, pe, 1, v, info, st);
}
namespace mc
{
const Part parts[] = {
    { "gaps", gaps, 0, 0, "two or three functions whose ordinals are 0..79 (0..499) and up to 65535 apart, in a section without a zero byte" },
    { "lists", lists, 1, 2, "all lists of up to 2 (3) functions over 6 ordinals, 8 names (pairs differing in case and by a suffix among them), forwarded or not, with up to 1 (2) settings changed (9 layouts, offsets, header update, stripping, library information); duplicates must be refused without change; read by a loader-style reader with binary search and by the library, before and after writing" },
    { "permutations", permutations, 0, 0, "every order of 5 (6) functions with 3 spacings, 3 first ordinals, 3 forwarder and 3 naming patterns" },
    { "sizes", sizes, 0, 0, "lists of 0..219 (0..1499) functions and names of up to 1096 (7496) bytes (around 64 KB in one layout) in 6 layouts, refused only when they do not fit" },
};
const int part_count = sizeof(parts) / sizeof(parts[0]);
}
