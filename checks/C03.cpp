// C03: a file is opened exactly when it is consistent.
#include "util.h"
#include "images.h"
using namespace u;

const char* const mc::check_id = "C03";

// The acceptance rule, from the bytes alone, in 64-bit arithmetic. Empty result: acceptable.
static bool pow2(uint64_t x) { return x && !(x & (x - 1)); }
static std::string type_problem(const Bytes& f, bool& p64)
{
    if(f.size() < 64) return "shorter than a DOS header";
    if(ref::get16(f, 0) != 0x5a4d) return "no MZ";
    const int64_t lf = static_cast<int32_t>(ref::get32(f, 60));
    if(lf < 0 || static_cast<uint64_t>(lf) + 0x78 > f.size()) return "PE header outside the file";
    if(ref::get32(f, lf) != 0x4550) return "no PE signature";
    const unsigned magic = ref::get16(f, lf + 24);
    if(magic != 0x10b && magic != 0x20b) return "bad magic";
    p64 = magic == 0x20b;
    return "";
}
static std::string problem(const Bytes& f, int flavour /* 0 automatic, 1 PE32 wanted, 2 PE64 wanted */, bool mem)
{
    try
    {
        bool p64 = false;
        std::string t = type_problem(f, p64);
        if(!flavour && !t.empty()) return t;
        if(f.size() < 64) return "short";
        if(ref::get16(f, 0) != 0x5a4d) return "no MZ";
        const int64_t lf = static_cast<int32_t>(ref::get32(f, 60));
        if(lf < 0) return "negative PE header offset";
        if(lf % 4) return "PE header not 4-aligned";
        const bool want64 = flavour ? flavour == 2 : p64;
        const uint64_t o = lf + 24, w = want64 ? 8 : 4;
        if(o + 80 + 4 * w > f.size()) return "NT headers outside the file";
        if(ref::get32(f, lf) != 0x4550) return "no PE signature";
        uint64_t nd = ref::get32(f, o + 76 + 4 * w);
        if(nd > 16) nd = 16;
        if(o + 80 + 4 * w + 8 * nd > f.size()) return "directories outside the file";
        const unsigned ns = ref::get16(f, lf + 6);
        if(ns > 96) return "more than 96 sections";
        if(ref::get16(f, o) != (want64 ? 0x20b : 0x10b)) return "wrong magic";
        const uint64_t sa = ref::get32(f, o + 32), fa = ref::get32(f, o + 36);
        if(!pow2(sa)) return "section alignment";
        if(!pow2(fa)) return "file alignment";
        if(fa != sa && (fa < 512 || fa > sa)) return "file alignment";
        const uint64_t img = ref::up(ref::get32(f, o + 56), sa);
        if(img == 0 || img >> 32) return "image size";
        const uint64_t hs = ref::get32(f, o + 60);
        const uint64_t so = o + ref::get16(f, lf + 20);
        uint64_t hdr = std::min<uint64_t>(hs, f.size());
        bool seen = false;
        uint64_t prev_end = 0;
        for(unsigned i = 0; i < ns; ++i)
        {
            const uint64_t h = so + 40 * i;
            if(h + 40 > f.size()) return "section headers outside the file";
            const uint64_t vs = ref::get32(f, h + 8), va = ref::get32(f, h + 12), rs = ref::get32(f, h + 16), rp = ref::get32(f, h + 20);
            if(!vs && !rs) return "both section sizes are zero";
            if(va + vs > 0xffffffffULL || rp + rs > 0xffffffffULL) return "section address overflow";
            if(vs > 0x80000000ULL || rs > 0x80000000ULL) return "section larger than 2 GB";
            const uint64_t avs = ref::up(vs ? vs : rs, sa);
            if(rs)
            {
                const uint64_t cut = ref::up(rs, fa) > avs ? vs : rs;
                if(ref::down(rp, fa) + cut > f.size()) return "raw data outside the file";
                if(mem && ref::down(va, sa) + cut > f.size()) return "memory data outside the file";
                if(!seen) { hdr = std::min(hs, rp); seen = true; }
            }
            if(va + avs > img) return "section outside the image";
            if(i == 0) { if(hs > va) return "headers reach into the first section"; }
            else if(va != prev_end) return "sections are not contiguous";
            prev_end = va + avs;
        }
        if(hdr > f.size()) return "headers outside the file";
        return "";
    }
    catch(const ref::Err& e) { return e.what; }
}

static void verdict(mc::Ctx& c, const Bytes& f, int flavour, bool mem)
{
    const std::string want = problem(f, flavour, mem);
    bool ok = false;
    std::string got;
    mc::reset_peak();
    try
    {
        std::istringstream is(f);
        if(flavour == 0) { pe_base pe(pe_factory::create_pe(is, mem)); ok = true; }
        else if(flavour == 1) { pe_base pe(is, pe_properties_32(), mem); ok = true; }
        else { pe_base pe(is, pe_properties_64(), mem); ok = true; }
    }
    catch(const pe_exception& e) { got = e.what(); }
    catch(const std::bad_alloc&)
    {
        MC_REQUIRE(c, mc::peak_request() > (32u << 20), "foreign-exception", "refused with bad_alloc although nothing large was needed");
        got = "bad_alloc";
    }
    if(ok) MC_REQUIRE(c, want.empty(), "accepted-inconsistent", "opened although: %s", want.c_str());
    else MC_REQUIRE(c, !want.empty(), "refused-consistent", "refused (%s) although it is consistent", got.c_str());
    bool p64 = false;
    const std::string tp = type_problem(f, p64);
    bool tok = false, t64 = false;
    try
    {
        std::istringstream is(f);
        t64 = pe_base::get_pe_type(is) == pe_type_64;
        tok = true;
    }
    catch(const pe_exception&) {}
    MC_REQUIRE(c, tok == tp.empty() && (!tok || t64 == p64), "type-detection", "type detection %s%s, expected %s", tok ? "says " : "refuses", tok ? (t64 ? "64" : "32") : "", tp.empty() ? (p64 ? "64" : "32") : tp.c_str());
    c.outcome(mc::hash(f, mc::mix(flavour, mc::mix(mem, mc::hash(want)))));
}

static void apply(mc::Ctx& c, bool thorough_values, bool one_alignment = false)
{
    static const uint32_t al[][2] = { { 0x1000, 0x200 }, { 0x1000, 0x1000 }, { 0x10, 0x10 }, { 0x200, 0x200 }, { 0x2000, 0x800 }, { 1, 1 }, { 0x100, 0x80 }, { 0x200, 0x400 } };
    ref::Spec s(c.flip("flavour"));
    const int a = one_alignment ? 0 : c.choose(thorough_values ? 8 : 4, "alignments");
    s.secalign = al[a][0]; s.filealign = al[a][1];
    if(s.secalign < 0x1000) s.hdrsize = 0x300;
    const int shape = c.choose(thorough_values ? 5 : 4, "sections");
    s.imagesize = s.secalign < 0x400 ? 0x1000 : s.secalign;
    if(shape == 1) s.add("a", img::pattern(0x120, 1));
    if(shape == 2) { s.add("a", img::pattern(0x200, 1)); s.add("b", img::pattern(0x101, 2), s.secalign + 5); s.add("c", img::pattern(0x200, 3)); }
    if(shape == 3) { s.add("a", Bytes(), 0x10); s.add("b", img::pattern(0x80, 2)); s.secs[1].vsize = 0; s.imagesize = static_cast<uint32_t>(s.secs[1].va + ref::up(s.secs[1].rawsize, s.secalign)); }
    if(shape == 4)
    {
        s.hdrsize = 0x1200;
        for(int i = 0; i < 96; ++i) s.add("n", Bytes(), 1);
        s.secs[95].data = "zz"; s.secs[95].rawsize = 2; s.secs[95].rawptr = 0x1200;
        s.secs[95].rawptr = static_cast<uint32_t>(ref::up(0x1200, s.filealign));
    }
    const bool mem = c.flip("memory dump");
    const int flavour = c.dev(3, "opened as");
    const size_t n = s.secs.size();
    const ref::Spec g = s;
    Bytes base = s.build();
    {
        uint64_t need = base.size();
        for(size_t i = 0; i < n; ++i) need = std::max<uint64_t>(need, static_cast<uint64_t>(g.secs[i].va) + g.secs[i].rawsize);
        if(mem) base.resize(need, 0);
    }
    const uint32_t fs = static_cast<uint32_t>(base.size());
    Bytes f = base;
    c.desc("pe%d align %#x/%#x shape %d%s as %d size %#x", s.pe64 ? 64 : 32, s.secalign, s.filealign, shape, mem ? " mem" : "", flavour, fs);
    const uint32_t lf = s.lfanew, o = lf + 24, w = s.pe64 ? 8 : 4;
    struct F { const char* name; uint32_t off; unsigned len; std::vector<uint64_t> v; };
    std::vector<F> fl;
#define FIELD(nm, off, len, ...) do { F f_ = { nm, static_cast<uint32_t>(off), len, { __VA_ARGS__ } }; fl.push_back(f_); } while(0)
    const uint64_t sa = s.secalign, fa = s.filealign, im = s.imagesize;
    FIELD("mz", 0, 2, 0x5a4c, 0x4d5a);
    FIELD("lfanew", 60, 4, 0x40, 0x82, 0x7c, 0x7ffffffc, 0x80000000u, 0xfffffffcu, fs - 4, fs - 0x78, fs - 0x88);
    FIELD("signature", lf, 4, 0x4551, 0x14550, 0);
    FIELD("sections", lf + 6, 2, n + 1, n ? n - 1 : 2, 0, 96, 97, 0xffff);
    FIELD("optsize", lf + 20, 2, s.optsize() + 8, s.optsize() - 8, 0, 0xffff, s.optsize() + 40);
    FIELD("magic", o, 2, s.pe64 ? 0x10b : 0x20b, 0x107, 0);
    FIELD("secalign", o + 32, 4, 0, 1, 3, 0x200, 0x400, 0x1000, 0x1001, 0x1800, 0x80000000u, 0xffffffffu);
    FIELD("filealign", o + 36, 4, 0, 1, 3, 0x100, 0x200, 0x300, 0x400, 0x1000, 0x2000, 0x80000000u);
    FIELD("imagesize", o + 56, 4, im - 1, im + 1, im - sa, im - sa + 1, im + sa, 0, 1, 0xffffffffu, 0xfffff000u, 0xfffff001u, 0xfffffff1u);
    FIELD("hdrsize", o + 60, 4, 0, 1, n ? g.secs[0].va : 0x2000, n ? g.secs[0].va + 1 : 0x2001, n ? g.secs[0].va - 1 : fs, fs, fs + 1, 0xffffffffu);
    FIELD("ndirs", o + 76 + 4 * w, 4, 0, 15, 17, 0x10000000u, 0xffffffffu);
    for(size_t i = 0; i < n; ++i)
    {
        if(n == 96 && i != 0 && i != 95) continue;
        const ref::Sec& x = g.secs[i];
        const uint32_t h = s.secs_off() + 40 * static_cast<uint32_t>(i);
        FIELD("vsize", h + 8, 4, 0, 1, x.vsize + 1, x.vsize - 1, sa, sa + 1, x.vsize + sa, 0x80000000u, 0x80000001u, 0xffffffffu, 0xffffffffu - x.va, 0x100000000ULL - x.va - sa);
        FIELD("va", h + 12, 4, 0, x.va + 1, x.va - 1, x.va + sa, x.va - sa, 0xfffff000u, 0xffffffffu - sa + 1, 0xffffffffu, im);
        FIELD("rawsize", h + 16, 4, 0, 1, x.rawsize + 1, x.rawsize + fa, fs - x.rawptr, fs - x.rawptr + 1, sa, sa + 1, 0x80000000u, 0x80000001u, 0xffffffffu);
        FIELD("rawptr", h + 20, 4, 0, 1, x.rawptr + 1, x.rawptr - 1, x.rawptr + fa - 1, fs - x.rawsize, fs - x.rawsize + 1, fs, fs + 1, 0xfffffe00u, 0xffffffffu);
    }
    for(size_t k = 0; k < fl.size(); ++k)
    {
        const int d = c.dev(static_cast<int>(fl[k].v.size()) + 1, fl[k].name);
        if(!d) continue;
        const uint64_t v = fl[k].v[d - 1];
        if(fl[k].off + fl[k].len <= f.size()) ref::put(f, fl[k].off, v, fl[k].len);
        c.desc(", %s@%#x=%#llx", fl[k].name, fl[k].off, static_cast<unsigned long long>(v));
    }
    // an image size that makes room for whatever the sections now claim
    if(c.dev(2, "image size fits"))
    {
        uint64_t e = 1;
        const unsigned ns = std::min<unsigned>(ref::get16(f, lf + 6), 96);
        const uint64_t so = o + ref::get16(f, lf + 20);
        for(unsigned i = 0; i < ns && so + 40 * i + 40 <= f.size(); ++i) { const uint64_t q = so + 40 * i; e = std::max<uint64_t>(e, static_cast<uint64_t>(ref::get32(f, q + 12)) + ref::up(std::max(ref::get32(f, q + 8), 1u), 0x10)); }
        ref::put32(f, o + 56, std::min<uint64_t>(e, 0xffffffffu));
        c.desc(", image size fits");
    }
    const uint32_t cuts[] = { 1, fs - (n ? g.secs[n - 1].rawptr : 0x300), fs - s.hdrsize, fs - s.secs_off(), fs - s.dirs_off(), fs - s.dirs_off() + 1, fs - lf, fs - 0x40, fs - 0x3f, fs - lf - 0x78, fs - lf - 0x77 };
    const int cut = c.dev(12, "truncation");
    if(cut) { f.resize(fs - std::min(fs, cuts[cut - 1])); c.desc(", truncated to %zu", f.size()); }
    const int grow = c.dev(2, "longer file");
    if(grow) f.append(0x2000, '\0');
    verdict(c, f, flavour, mem);
}
static void fields(mc::Ctx& c) { apply(c, false); }
static void more_alignments(mc::Ctx& c) { apply(c, true); }

static void triples(mc::Ctx& c) { apply(c, false, true); }

// Valid chains of sections with every small combination of sizes: acceptance has to follow contiguity exactly
static void chains(mc::Ctx& c)
{
    ref::Spec s(c.flip("flavour"));
    static const uint32_t al[][2] = { { 0x1000, 0x200 }, { 4, 4 }, { 0x200, 0x200 } };
    const int a = c.choose(3, "alignments");
    s.secalign = al[a][0]; s.filealign = al[a][1];
    s.hdrsize = 0x400;
    const int n = 1 + c.choose(mc::tier_pick(2, 3), "sections");
    const uint64_t sa = s.secalign;
    uint64_t va = ref::up(0x400, sa);
    uint32_t raw = 0x400;
    for(int i = 0; i < n; ++i)
    {
        ref::Sec x;
        x.name = "x";
        const uint32_t vs[] = { 0, 1, static_cast<uint32_t>(sa), static_cast<uint32_t>(sa + 1) };
        const uint32_t rs[] = { 0, 1, s.filealign, static_cast<uint32_t>(sa), static_cast<uint32_t>(sa + 1) };
        x.vsize = c.pick(vs, "virtual size"); x.rawsize = c.pick(rs, "raw size");
        const int gap = c.choose(4, "address");
        x.va = static_cast<uint32_t>(gap == 0 ? va : gap == 1 ? va + sa : gap == 2 ? va + 1 : va - sa);
        x.rawptr = raw;
        raw += static_cast<uint32_t>(ref::up(x.rawsize, s.filealign));
        va = x.va + ref::up(x.vsize ? x.vsize : x.rawsize, sa);
        s.secs.push_back(x);
        c.desc(" [va %#x vs %#x rs %#x]", x.va, x.vsize, x.rawsize);
    }
    s.imagesize = static_cast<uint32_t>(va - (c.flip("tight image size") ? sa : 0));
    Bytes f = s.build();
    f.resize(std::max<size_t>(f.size(), raw), 0);
    verdict(c, f, 0, false);
}

// Files of 2 and 4 GB and more, which hold zeros behind the image or a section far from its beginning
static void long_files(mc::Ctx& c)
{
    static const uint64_t sizes[] = { 0, 0x7fffffff, 0x80000000u, 0x80000001u, 0xffffffffu, 0x100000000ull, 0x100000001ull, 0x100000100ull, 0x100000400ull, 0x100001000ull, 0x180000000ull, 0x200000000ull, 0x10000000000ull };
    static const uint32_t places[] = { 0, 0x7ffff000, 0x80000000u, 0xc0000000u, 0xfffff000u };
    const int kind = c.choose(img::kinds, "image");
    const bool p64 = c.flip("flavour"), mem = c.flip("dump");
    ref::Spec s = img::base(kind, p64);
    const Bytes whole = s.build();
    SparseBuf b;
    b.d = whole;
    b.size = c.pick(sizes, "size");
    const bool small = !b.size;
    if(small) b.size = whole.size();
    const uint32_t place = c.pick(places, "place of the last section");
    const bool moved = place && !s.secs.empty() && !mem && !s.secs.back().data.empty() && kind != img::k_overlay;
    bool inside = true;
    if(moved)
    {
        const uint32_t h = s.lfanew + 24 + ref::get16(whole, s.lfanew + 20) + 40 * static_cast<uint32_t>(s.secs.size() - 1), rp = ref::get32(whole, h + 20), rs = ref::get32(whole, h + 16);
        ref::put32(b.d, h + 20, place);
        b.far_at = place; b.far = whole.substr(rp, rs);
        inside = place + static_cast<uint64_t>(rs) <= b.size;
    }
    else if(place) { c.outcome(0); return; }
    bool short_ok = true, ok = true;
    Bytes want, got;
    std::vector<Bytes> raw, raw_got;
    try
    {
        const pe_base pe(open_pe(whole, mem));
        for(size_t i = 0; i < pe.get_image_sections().size(); ++i) raw.push_back(pe.get_image_sections()[i].get_raw_data());
        want = pe.get_stub_overlay() + '|' + pe.get_full_headers_data();
    }
    catch(const pe_exception&) { short_ok = false; }
    if(mem && !short_ok) { c.outcome(1); return; }                    // not a dump: what it holds depends on the length
    c.step();
    c.desc("image %d of %llu bytes, last section at %#x", kind, static_cast<unsigned long long>(b.size), place);
    uint64_t end = 0;
    try
    {
        std::istream is(&b);
        const pe_base pe(pe_factory::create_pe(is, mem));
        for(size_t i = 0; i < pe.get_image_sections().size(); ++i)
        {
            raw_got.push_back(pe.get_image_sections()[i].get_raw_data());
            const ref::Sec& x = s.secs[i];
            if(!x.data.empty()) end = std::max<uint64_t>(end, static_cast<uint64_t>(pe.get_image_sections()[i].get_pointer_to_raw_data()) + pe.get_image_sections()[i].get_size_of_raw_data());
        }
        got = pe.get_stub_overlay() + '|' + pe.get_full_headers_data();
        if(!raw.empty() && !mem) MC_REQUIRE(c, pe.has_overlay() == (b.size > end), "overlay", "overlay is reported as %d", pe.has_overlay());
    }
    catch(const pe_exception&) { ok = false; }
    MC_REQUIRE(c, ok == (short_ok && inside), ok ? "accepted-inconsistent" : "refused-consistent", "a file of %llu bytes is %s", static_cast<unsigned long long>(b.size), ok ? "opened" : "refused");
    if(ok)
    {
        MC_REQUIRE(c, raw_got == raw, "contents", "the sections of the long file differ");
        if(!moved) MC_REQUIRE(c, want == got, "contents", "the headers of the long file differ");
    }
    c.outcome(mc::mix(mc::hash(whole), mc::mix(b.size, place) + mem));
}

namespace mc
{
const Part parts[] = {
    { "boundary-triples", triples, 1, 3, "as boundary-fields with one alignment setting and up to 1 (3 thorough) simultaneous changes" },
    { "boundary-fields", fields, 2, 2, "4 alignment settings x 4 section shapes x flavours x open modes, with up to 2 simultaneous changes among boundary values of every field the acceptance rule mentions, truncations and extensions; a case is the resulting file with its verdict" },
    { "more-alignments", more_alignments, 1, 2, "as boundary-fields with 8 alignment settings and fewer simultaneous changes" },
    { "long-files", long_files, 0, 0, "10 images x flavours x file and dump form in files of 13 lengths around 2 GB, 4 GB and more, the last section at its place or 2, 3 and 4 GB away" },
    { "section-chains", chains, 0, 0, "all chains of 1-2 (3) sections over 4 virtual sizes x 5 raw sizes x 4 placements x image size" },
};
const int part_count = sizeof(parts) / sizeof(parts[0]);
}
