// C01: opening arbitrary bytes is memory-safe, leak-free and always ends.
#include "util.h"
#include "images.h"
using namespace u;

const char* const mc::check_id = "C01";

// Opens the bytes in the chosen mode and touches everything an open image offers
static uint64_t try_open(mc::Ctx& c, const Bytes& b, int mode)
{
    const bool mem = mode & 1, dbg = (mode & 2) == 0;
    uint64_t h = 0;
    try
    {
        std::istringstream is(b);
        const int how = mode >> 2;
        if(how == 0)
        {
            pe_base pe(pe_factory::create_pe(is, mem, dbg));
            const Bytes f = fingerprint(pe);
            h = mc::hash(f);
            for(size_t i = 0; i < pe.get_image_sections().size(); ++i)
            {
                const section& s = pe.get_image_sections()[i];
                if(s.get_aligned_virtual_size(pe.get_section_alignment()) < 0x100000) h = mc::mix(h, s.get_virtual_data(pe.get_section_alignment()).size());
                h = mc::mix(h, s.get_raw_data().size());
            }
            for(uint32_t d = 0; d < 16; ++d) h = mc::mix(h, pe.directory_exists(d));
        }
        else if(how == 1) { pe_base pe(is, pe_properties_32(), mem, dbg); h = mc::hash(fingerprint(pe)); }
        else { pe_base pe(is, pe_properties_64(), mem, dbg); h = mc::hash(fingerprint(pe)); }
        h = mc::mix(h, 1);
    }
    catch(const pe_exception& e) { h = mc::mix(mc::hash(std::string(e.what())), 2); }
    catch(const std::exception& e) { h = 3; }
    (void)c;
    return h;
}

struct Field { unsigned off, width; };

static std::vector<Field> fields(const ref::Spec& s, bool all)
{
    std::vector<Field> f;
    Field t;
#define F(o, w) do { t.off = (o); t.width = (w); f.push_back(t); } while(0)
    F(0, 2); F(60, 4);
    unsigned o = s.lfanew;
    F(o, 4); F(o + 4, 2); F(o + 6, 2); F(o + 20, 2); F(o + 22, 2);
    if(all) { F(o + 8, 4); F(o + 12, 4); F(o + 16, 4); }
    o += 24;
    F(o, 2); F(o + 32, 4); F(o + 36, 4); F(o + 56, 4); F(o + 60, 4);
    F(s.dirs_off() - 4, 4);
    if(all) { for(unsigned k = 2; k < (s.pe64 ? 112u : 96u); k += 2) F(o + k, 2); F(o + 16, 4); F(o + 28, 4); F(o + 24, 4); }
    for(unsigned d = 0; d < s.ndirs; ++d) if(all || d == 6) { F(s.dirs_off() + 8 * d, 4); F(s.dirs_off() + 8 * d + 4, 4); }
    for(unsigned k = 0; k < s.secs.size(); ++k)
    {
        unsigned q = s.secs_off() + 40 * k;
        for(unsigned j = 8; j < 24; j += 4) F(q + j, 4);
        if(all) for(unsigned j = 24; j < 40; j += 4) F(q + j, 4);
    }
    // the debug directory and its entries, when present
    if(s.dirs[6].rva) for(unsigned j = 0; j < 60; j += 4) F(s.secs[0].rawptr + 0x20 + j, 4);
#undef F
    return f;
}

static const uint64_t vals[] = { 0, 1, 2, 3, 4, 0xf, 0x10, 0x20, 0x3f, 0x40, 0x5f, 0x60, 0x61, 0xff, 0x1ff, 0x200, 0x400, 0xfff, 0x1000, 0x1001, 0x2000, 0x7fff, 0x8000, 0xffff,
    0x10000, 0x7ffffffc, 0x7fffffff, 0x80000000u, 0x80000001u, 0xfffff000u, 0xfffffff0u, 0xfffffffcu, 0xffffffffu };
static const int nabs = sizeof(vals) / sizeof(vals[0]);
static const int nvals = nabs + 8;

static void mutate(Bytes& b, const Field& f, int v)
{
    uint64_t old = ref::get(b, f.off, f.width), n;
    if(v < nabs) n = vals[v];
    else switch(v - nabs)
    {
    case 0: n = old + 1; break;
    case 1: n = old - 1; break;
    case 2: n = b.size(); break;
    case 3: n = b.size() - 1; break;
    case 4: n = b.size() + 1; break;
    case 5: n = old + 0x1000; break;
    case 6: n = old * 2; break;
    default: n = old ^ 0x80000000u; break;
    }
    ref::put(b, f.off, n, f.width);
}

static void single(mc::Ctx& c)
{
    const int kind = c.choose(img::kinds, "image"), p64 = c.choose(2, "flavour");
    const ref::Spec s = img::base(kind, p64);
    Bytes b = s.build();
    const std::vector<Field> f = fields(s, true);
    const int i = c.choose(static_cast<int>(f.size()), "field"), v = c.choose(nvals, "value");
    const int mode = c.choose(12, "mode");
    mutate(b, f[i], v);
    c.desc("image %d, pe%d, field at %#x (%u bytes) set to %#llx, mode %d", kind, p64 ? 64 : 32, f[i].off, f[i].width, static_cast<unsigned long long>(ref::get(b, f[i].off, f[i].width)), mode);
    c.outcome(try_open(c, b, mode));
}

static void pairs(mc::Ctx& c)
{
    static const int quick_kinds[] = { img::k_plain, img::k_lowalign, img::k_debug, img::k_bss };
    const int kind = mc::thorough() ? c.choose(img::kinds, "image") : c.pick(quick_kinds, "image");
    const int p64 = mc::thorough() ? c.choose(2, "flavour") : (kind == img::k_bss);
    const ref::Spec s = img::base(kind, p64);
    Bytes b = s.build();
    const std::vector<Field> f = fields(s, false);
    // coarse value set for pairs
    static const int vq[] = { 0, 1, 5, 11, 14, 15, 18, 26, 27, 29, 32, nabs + 0, nabs + 1, nabs + 2 };
    const int nv = static_cast<int>(sizeof(vq) / sizeof(vq[0]));
    const int i = c.choose(static_cast<int>(f.size()) - 1, "first field"), v = c.choose(nv, "first value");
    const int j = i + 1 + c.choose(static_cast<int>(f.size()) - 1 - i, "second field"), w = c.choose(nv, "second value");
    const int mode = c.choose(2, "mode");
    mutate(b, f[i], vq[v]);
    mutate(b, f[j], vq[w]);
    c.desc("image %d, pe%d, fields at %#x and %#x set to %#llx and %#llx, mode %d", kind, p64 ? 64 : 32, f[i].off, f[j].off,
        static_cast<unsigned long long>(ref::get(b, f[i].off, f[i].width)), static_cast<unsigned long long>(ref::get(b, f[j].off, f[j].width)), mode);
    c.outcome(try_open(c, b, mode));
}

static void truncated(mc::Ctx& c)
{
    const int kind = c.choose(img::kinds, "image"), p64 = c.choose(2, "flavour");
    const ref::Spec s = img::base(kind, p64);
    Bytes b = s.build();
    const int len = c.choose(static_cast<int>(b.size()) + 1, "length");
    const int mode = c.choose(mc::thorough() ? 12 : 2, "mode");
    b.resize(static_cast<size_t>(len));
    c.desc("image %d, pe%d, cut to %d bytes, mode %d", kind, p64 ? 64 : 32, len, mode);
    c.outcome(try_open(c, b, mode));
}

// Memory dumps: mapped layout, cut at every length near a boundary
static void dumps(mc::Ctx& c)
{
    static const int ks[] = { img::k_plain, img::k_lowalign, img::k_bss, img::k_debug, img::k_tiny };
    const int kind = c.pick(ks, "image"), p64 = c.choose(2, "flavour");
    const ref::Spec s = img::base(kind, p64);
    Bytes b = s.build_mapped();
    const size_t step = b.size() / 600 + 1;
    const int cut = c.choose(static_cast<int>(b.size() / step) + 1, "length");
    b.resize(b.size() - static_cast<size_t>(cut) * step < b.size() ? b.size() - static_cast<size_t>(cut) * step : b.size());
    c.desc("image %d, pe%d, memory dump of %zu bytes", kind, p64 ? 64 : 32, b.size());
    c.outcome(try_open(c, b, 1));
}

// Tiny inputs: every string over a small alphabet
static void tiny(mc::Ctx& c)
{
    static const char al[] = { 'M', 'Z', 0, 1, 'P', 'E', static_cast<char>(0xff) };
    const int len = c.choose(mc::thorough() ? 6 : 5, "length");
    Bytes b;
    for(int i = 0; i < len; ++i) b += c.pick(al, "byte");
    const int grow = c.choose(3, "filler");
    if(grow == 1) { b.resize(64, 0); } else if(grow == 2) { b.resize(0x200, static_cast<char>(0xff)); }
    const int mode = c.choose(4, "mode");
    c.desc("%zu bytes %s", b.size(), mc::hex(b, 16).c_str());
    c.outcome(try_open(c, b, mode));
}

// A debug directory around the end of the headers, of raw and of virtual data
static void debug_places(mc::Ctx& c)
{
    const int p64 = c.choose(2, "flavour"), where = c.choose(4, "around"), fill = c.choose(3, "types"), back = c.choose(92, "distance");
    static const uint32_t sizes[] = { 28, 56, 84, 0x1000, 0xffffffffu };
    const uint32_t size = c.pick(sizes, "size");
    const int mode = c.choose(2, "dump") | (c.choose(2, "constructor") ? 4 << p64 : 0);
    ref::Spec s(p64 != 0);
    s.hdrsize = 0x600;
    s.add(".a", Bytes(0x1f3, static_cast<char>(fill == 2 ? 4 : 2)), where == 2 ? 0x1000 : 0x1f3);
    s.add(".b", Bytes(0x200, static_cast<char>(fill == 2 ? 4 : 2)));
    const uint32_t ends[] = { 0x600, 0x11f3, 0x2000, 0x3000 };
    const uint32_t at = ends[where] + 4 - back;
    s.dirs[6].rva = at; s.dirs[6].size = size;
    Bytes b = mode & 1 ? s.build_mapped() : s.build();
    // entries all the way, of data at the start of the file or outside of it
    for(uint32_t o = 0; o < 0x80; o += 28)
    {
        const uint64_t q = at + o;
        const uint64_t f = q < 0x600 ? q : q >= 0x2000 ? (mode & 1 ? q : q - 0x2000 + s.secs[1].rawptr) : q >= 0x1000 ? (mode & 1 ? q : q - 0x1000 + s.secs[0].rawptr) : b.size();
        if(f < s.secs_off() + 80 || f + 28 > b.size() || (q < 0x600 && q + 28 > 0x600)) continue;
        ref::put32(b, f + 12, fill == 1 ? 9 : fill == 2 ? 4 : 2); ref::put32(b, f + 16, fill ? 8 : 0x10000000); ref::put32(b, f + 20, 0x40); ref::put32(b, f + 24, 0x40 + o);
    }
    c.desc("pe%d, debug directory at %#x, %u bytes, types %d, mode %d", p64 ? 64 : 32, at, size, fill, mode);
    c.outcome(try_open(c, b, mode));
}

namespace mc
{
const Part parts[] = {
    { "single-field", single, 0, 0, "ten base images in both flavours, each header, section and debug field set to each of 41 boundary values, in 12 open modes; distinct by resulting image or refusal" },
    { "field-pairs", pairs, 0, 0, "all pairs of size- and address-bearing fields over 14 boundary values; distinct by resulting image or refusal" },
    { "truncations", truncated, 0, 0, "every prefix of every base image; distinct by resulting image or refusal" },
    { "dump-truncations", dumps, 0, 0, "memory-dump layouts cut at evenly spaced lengths; distinct by resulting image or refusal" },
    { "debug-places", debug_places, 0, 0, "a debug directory at every address up to 88 bytes around the end of headers, of raw and of virtual data, with 5 sizes, 3 kinds of entries, as file and dump; distinct by resulting image or refusal" },
    { "tiny-inputs", tiny, 0, 0, "all strings up to length 4 (5 thorough) over 7 bytes with three fillers; distinct by refusal" },
};
const int part_count = sizeof(parts) / sizeof(parts[0]);
}
