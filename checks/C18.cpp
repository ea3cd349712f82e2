// C18: rebuilt TLS information reads back unchanged.
#include "reb.h"
using namespace u;
const char* const mc::check_id = "C18";

struct Info { uint32_t start, end, index, cbs, zero, chars; Bytes data; std::vector<uint32_t> list; };
struct Set { uint32_t off; bool wcb, wdata, raw, hdr, strip; };

static uint64_t base_of(const pe_base& pe) { return pe.get_image_base_64(); }
// Loader-style reader
static Info read(const ref::Mem& m, uint32_t rva, bool pe64, uint64_t base)
{
    Info i;
    const unsigned w = pe64 ? 8 : 4;
    uint64_t v[4];
    for(unsigned k = 0; k < 4; ++k) v[k] = pe64 ? m.r64(rva + 8 * k) : m.r32(rva + 4 * k);
    for(unsigned k = 0; k < 4; ++k) v[k] = v[k] ? v[k] - base : 0;
    i.start = static_cast<uint32_t>(v[0]); i.end = static_cast<uint32_t>(v[1]); i.index = static_cast<uint32_t>(v[2]); i.cbs = static_cast<uint32_t>(v[3]);
    i.zero = m.r32(rva + 4 * w); i.chars = m.r32(rva + 4 * w + 4);
    if(i.start && i.end > i.start) i.data = m.bytes(i.start, i.end - i.start);
    if(i.cbs) for(uint32_t a = i.cbs; ; a += w)
    {
        const uint64_t x = pe64 ? m.r64(a) : m.r32(a);
        if(!x) break;
        i.list.push_back(static_cast<uint32_t>(x - base));
    }
    return i;
}
static void fields(mc::Ctx& c, const char* who, const Info& g, const Info& w)
{
    MC_REQUIRE(c, g.start == w.start && g.end == w.end, "data-range", "%s: raw data is at %#x..%#x, should be at %#x..%#x", who, g.start, g.end, w.start, w.end);
    MC_REQUIRE(c, g.index == w.index, "index", "%s: index is at %#x, should be at %#x", who, g.index, w.index);
    MC_REQUIRE(c, g.cbs == w.cbs, "callbacks-at", "%s: callbacks are at %#x, should be at %#x", who, g.cbs, w.cbs);
    MC_REQUIRE(c, g.zero == w.zero, "zero-fill", "%s: zero fill is %#x, should be %#x", who, g.zero, w.zero);
    MC_REQUIRE(c, g.chars == w.chars, "characteristics", "%s: characteristics are %#x, should be %#x", who, g.chars, w.chars);
}
static void from_library(mc::Ctx& c, const char* who, const pe_base& pe, const Info& w)
{
    const tls_info t = get_tls_info(pe);
    Info g;
    g.start = t.get_raw_data_start_rva(); g.end = t.get_raw_data_end_rva(); g.index = t.get_index_rva(); g.cbs = t.get_callbacks_rva(); g.zero = t.get_size_of_zero_fill(); g.chars = t.get_characteristics();
    fields(c, who, g, w);
    MC_REQUIRE(c, t.get_tls_callbacks() == w.list, "callbacks", "%s finds %zu callbacks, should find %zu", who, t.get_tls_callbacks().size(), w.list.size());
    MC_REQUIRE(c, t.get_raw_data() == w.data, "data", "%s finds other raw data (%zu bytes, should be %zu)", who, t.get_raw_data().size(), w.data.size());
}
static const section* section_of(const pe_base& pe, uint32_t rva)
{
    for(size_t i = 0; i < pe.get_image_sections().size(); ++i)
    {
        const section& s = pe.get_image_sections()[i];
        if(rva >= s.get_virtual_address() && rva < uint64_t(s.get_virtual_address()) + s.get_aligned_virtual_size(pe.get_section_alignment())) return &s;
    }
    return 0;
}
static bool overlap(uint64_t a, uint64_t an, uint64_t b, uint64_t bn) { return a < b + bn && b < a + an; }

static void run(mc::Ctx& c, pe_base& pe, size_t at, bool pe64, const Info& in, const Set& st)
{
    const unsigned w = pe64 ? 8 : 4, size = 4 * w + 8;
    const uint64_t base = base_of(pe);
    const section_list& l = pe.get_image_sections();
    const uint32_t va = l[at].get_virtual_address(), pos = va + static_cast<uint32_t>(ref::up(st.off, w));
    const uint32_t len = in.end - in.start, cblen = static_cast<uint32_t>(w * (in.list.size() + 1));
    const bool data = st.wdata && in.start && len, cbs = st.wcb && in.cbs;
    // what must happen
    bool fits = true;
    std::vector<bool> stored(data ? len : 0, false);
    const section* last = &l.back();
    uint64_t grown = 0;     // end of the last section once the data is written
    if(data)
    {
        const section* s = section_of(pe, in.start);
        if(!s) fits = false;
        else
        {
            const uint32_t o = in.start - s->get_virtual_address();
            if(s != last && o + uint64_t(len) > s->get_aligned_virtual_size(pe.get_section_alignment())) fits = false;
            if(s == last) grown = ref::up(in.end, pe.get_section_alignment());
            for(uint32_t k = 0; k < len; ++k) stored[k] = o + k < s->get_raw_data().size() || (s == last && st.raw);
        }
    }
    if(cbs)
    {
        const section* s = section_of(pe, in.cbs);
        if(!s && in.cbs >= last->get_virtual_address() && in.cbs < grown) s = last;
        if(!s) fits = false;
        else if(s != last)
        {
            const uint64_t o = in.cbs - s->get_virtual_address(), raw = s->get_raw_data().size();
            if(o + cblen > s->get_aligned_virtual_size(pe.get_section_alignment()) || (!in.list.empty() && o + cblen - w > raw)) fits = false;
        }
    }
    reb::Snap before = reb::snap(pe);
    tls_info t;
    t.set_raw_data_start_rva(in.start); t.set_index_rva(in.index); t.set_callbacks_rva(in.cbs); t.set_size_of_zero_fill(in.zero); t.set_characteristics(in.chars);
    t.set_raw_data(in.data);
    t.recalc_raw_data_end_rva();
    MC_REQUIRE(c, t.get_raw_data_end_rva() == in.start + in.data.size(), "recalc", "recalculated end is %#x", t.get_raw_data_end_rva());
    t.set_raw_data_end_rva(in.end);
    t.add_tls_callback(5); t.clear_tls_callbacks();
    for(size_t i = 0; i < in.list.size(); ++i) if(i % 2) t.get_tls_callbacks().push_back(in.list[i]); else t.add_tls_callback(in.list[i]);
    c.step();
    image_directory dir;
    try { dir = rebuild_tls(pe, t, pe.get_image_sections()[at], st.off, st.wcb, st.wdata, st.raw ? tls_data_expand_raw : tls_data_expand_virtual, st.hdr, st.strip); }
    catch(const pe_exception& e)
    {
        MC_REQUIRE(c, !fits, "refused", "refused: %s", e.what());
        c.outcome(mc::mix(1, mc::mix(in.start, in.cbs)));
        return;
    }
    MC_REQUIRE(c, fits, "not-refused", "raw data or callbacks do not fit but are not refused");
    MC_REQUIRE(c, dir.get_rva() == pos && dir.get_size() == size, "directory", "directory is %#x+%#x, should be %#x+%#x", dir.get_rva(), dir.get_size(), pos, size);
    reb::inside_section(c, pe, at, dir);
    reb::Ranges ok;
    if(data) ok.push_back(std::make_pair(in.start, in.start + std::min<uint32_t>(len, static_cast<uint32_t>(in.data.size()))));
    if(cbs) ok.push_back(std::make_pair(in.cbs, in.cbs + cblen));
    reb::untouched(c, pe, before, at, pos - va, pos - va + size, ok);
    reb::headers_kept(c, pe, before, st.hdr ? 9 : -1, dir.get_rva(), dir.get_size());
    // contents: where something was written it is what was given, elsewhere it is what was there
    const ref::Mem m = mem_of(pe);
    const Info g = read(m, pos, pe64, base);
    fields(c, "reader", g, in);
    if(data) for(uint32_t k = 0; k < len && k < in.data.size(); ++k)
    {
        const char x = static_cast<char>(m.rd(in.start + k, 1));
        MC_REQUIRE(c, x == in.data[k] || (!stored[k] && !x), "data", "byte %#x of raw data is %02x, should be %02x", k, uint8_t(x), uint8_t(in.data[k]));
    }
    if(cbs) MC_REQUIRE(c, g.list == in.list, "callbacks", "reader finds %zu callbacks, should find %zu", g.list.size(), in.list.size());
    Info want = in; want.data = g.data; want.list = g.list;
    if(!st.hdr) { pe.set_directory_rva(9, dir.get_rva()); pe.set_directory_size(9, dir.get_size()); }
    from_library(c, "library", pe, want);
    const Bytes f = write_pe(pe);
    const ref::Img im = ref::Img::parse(f);
    MC_REQUIRE(c, im.h.dirs[9].rva == pos && im.h.dirs[9].size == size, "written-directory", "written directory differs");
    const Info g2 = read(ref::Mem::map(im), pos, pe64, base);
    fields(c, "reader (written)", g2, want);
    MC_REQUIRE(c, g2.data == want.data && g2.list == want.list, "written", "written file holds other data or callbacks");
    pe_base q(open_pe(f, false, false));
    from_library(c, "library (reopened)", q, want);
    c.outcome(mc::mix(mc::hash(want.data), mc::mix(mc::mix(in.start, in.cbs), mc::mix(want.list.size(), pos))));
    c.trace();
}
static void descriptions(mc::Ctx& c)
{
    const bool pe64 = c.flip("flavour");
    const unsigned w = pe64 ? 8 : 4;
    std::unique_ptr<pe_base> pe;
    const int lay = c.dev(reb::layouts, "layout");
    Set st;
    static const uint32_t offs[] = { 0, 3, 0x14, 0x101 };
    st.off = offs[c.dev(4, "offset")]; st.hdr = !c.dev(2, "headers"); st.strip = !c.dev(2, "strip"); st.wcb = !c.dev(2, "write callbacks"); st.wdata = !c.dev(2, "write data"); st.raw = !c.dev(2, "expand");
    const size_t at = reb::layout(c, pe, lay, pe64);
    const section_list& l = pe->get_image_sections();
    const section &first = l[0], &own = l[at], &last = l.back();
    // existing callbacks: two addresses and the end
    const uint32_t fva = first.get_virtual_address(), fraw = static_cast<uint32_t>(first.get_raw_data().size()), fvirt = first.get_aligned_virtual_size(pe->get_section_alignment());
    {
        Bytes& r = pe->get_image_sections()[0].get_raw_data();
        for(unsigned k = 0; k < 3; ++k) { const uint64_t v = k < 2 ? base_of(*pe) + 0x500 + k : 0; if(pe64) ref::put64(r, 8 * k, v); else ref::put32(r, 4 * k, static_cast<uint32_t>(v)); }
    }
    Info in;
    static const uint32_t lens[] = { 5, 0, 1, 3, 0x48, 0x1100 };
    const uint32_t len = lens[c.choose(mc::tier_pick(5, 6), "data length")];
    const int dp = c.choose(7, "data place"), cp = c.choose(7, "callback place"), n = c.choose(3, "callbacks") * (c.devs_left() ? 2 : 1);
    const int rel = c.dev(3, "string length");
    in.chars = c.dev(2, "characteristics") ? 0x300000 : 0; in.zero = c.dev(2, "zero fill") ? 0x80000001 : 0;
    in.index = fva + (c.dev(2, "index") ? fvirt - 1 : 4);
    in.data = img::pattern(len, 3);
    for(size_t k = 0; k < in.data.size(); ++k) if(!in.data[k]) in.data[k] = 1;
    if(rel == 1) in.data += "more"; else if(rel == 2) in.data = in.data.substr(0, in.data.size() / 2);
    // an address of zero is the image base itself, it does not end the list
    const int odd = c.dev(3, "callback addresses");
    for(int i = 0; i < n; ++i) in.list.push_back(odd && i == odd - 1 ? 0 : 0x111 + 0x1000 * i);
    const uint32_t own_va = own.get_virtual_address(), own_virt = own.get_aligned_virtual_size(pe->get_section_alignment());
    const uint32_t dpos = own_va + static_cast<uint32_t>(ref::up(st.off, w)), dsize = 4 * w + 8, lraw = static_cast<uint32_t>(last.get_raw_data().size());
    const uint32_t dplace[] = { 0, dpos + dsize + 1, fva + 3 * w, fva + fraw - 3, fva + fvirt - 2, 0x7000000, last.get_virtual_address() + (lraw ? lraw - 1 : 0) };
    in.start = dplace[dp]; in.end = in.start ? in.start + len : 0;
    const uint32_t cplace[] = { 0, own_va + 0x200, fva + 3 * w, fva + fraw - w * n, fva + fraw - w * n + 1, 0x7100000, last.get_virtual_address() + lraw + 4 };
    in.cbs = cplace[cp];
    if(!st.wcb && cp) in.cbs = fva;
    // places outside the section they are meant for, and overlapping ones, are of no interest
    if((dp == 1 && in.start >= own_va + own_virt) || (cp == 1 && st.wcb && in.cbs >= own_va + own_virt) || (cp == 6 && st.wcb && in.cbs >= last.get_virtual_address() + last.get_aligned_virtual_size(pe->get_section_alignment()))) return;
    const uint32_t cbn = w * (n + 1);
    if(in.start && len && overlap(in.start, len, dpos, dsize)) return;
    if(in.cbs && overlap(in.cbs, st.wcb ? cbn : 3 * w, dpos, dsize)) return;
    if(in.start && in.cbs && len && overlap(in.start, len, in.cbs, st.wcb ? cbn : 3 * w)) return;
    // unwritten data must lie somewhere
    if(!st.wdata && in.start && len) { const section* s = section_of(*pe, in.start); if(!s || in.end > s->get_virtual_address() + s->get_aligned_virtual_size(pe->get_section_alignment())) return; }
    if(in.start && !len && !section_of(*pe, in.start)) return;
    c.desc(" off=%#x hdr=%d strip=%d wcb=%d wdata=%d expand=%s data=%#x+%#x string=%zu cbs=%#x*%d zero=%#x chars=%#x", st.off, st.hdr, st.strip, st.wcb, st.wdata, st.raw ? "raw" : "virtual", in.start, len, in.data.size(), in.cbs, n, in.zero, in.chars);
    run(c, *pe, at, pe64, in, st);
}
// Any number of data bytes and callbacks
static void sizes(mc::Ctx& c)
{
    const bool pe64 = c.flip("flavour");
    const unsigned w = pe64 ? 8 : 4, dsize = 4 * w + 8;
    const int lay = c.choose(6, "layout"), mode = c.choose(3, "what"), place = c.choose(4, "places"), i = c.choose(mc::tier_pick(140, 900), "size");
    const unsigned top = mc::tier_pick(130u, 890u), k = i < int(top) ? i : (64u << (i - top)) + (i % 2);
    std::unique_ptr<pe_base> pe;
    const size_t at = reb::layout(c, pe, lay == 5 ? reb::big_dirty : lay, pe64);
    const section_list& l = pe->get_image_sections();
    Set st = { 0, true, true, place % 2 == 0, true, k % 2 != 0 };
    Info in;
    in.chars = 0; in.zero = k; in.index = l[0].get_virtual_address() + 4;
    in.data = mode != 1 ? img::pattern(k, 3) : Bytes();
    for(size_t j = 0; j < in.data.size(); ++j) if(!in.data[j]) in.data[j] = 1;
    if(mode != 0) for(unsigned j = 0; j < k; ++j) in.list.push_back(0x111 + (j * 7919) % 0xffff);
    // behind the directory, behind each other, or in the first or last section
    const uint32_t own = l[at].get_virtual_address() + dsize, cbn = static_cast<uint32_t>(w * (in.list.size() + 1));
    const section& last = l.back();
    const uint32_t far = last.get_virtual_address() + (&last == &l[at] ? dsize : 0);
    in.start = place < 2 ? own : far + static_cast<uint32_t>(ref::up(cbn, 8));
    in.end = in.start + static_cast<uint32_t>(in.data.size());
    in.cbs = place < 2 ? static_cast<uint32_t>(ref::up(in.end, 8)) : far;
    if(in.data.empty()) in.start = in.end = 0;
    if(mode == 0) in.cbs = 0;
    c.desc(" mode %d size %u place %d: data %#x+%#zx callbacks %#x*%zu", mode, k, place, in.start, in.data.size(), in.cbs, in.list.size());
    run(c, *pe, at, pe64, in, st);
}
// Arguments that are refused without change
static void refusals(mc::Ctx& c)
{
    const bool pe64 = c.flip("flavour");
    std::unique_ptr<pe_base> pe;
    const size_t at = reb::layout(c, pe, 1, pe64);
    const uint32_t off = c.choose(0x620, "offset"), size = pe64 ? 40 : 24, pos = static_cast<uint32_t>(ref::up(off, pe64 ? 8 : 4));
    const int bad = c.choose(4, "argument");
    tls_info t;
    t.set_index_rva(bad == 1 ? 0 : 0x1000);
    if(bad == 2) { t.set_raw_data_start_rva(0x1008); t.set_raw_data_end_rva(0x1007); }
    const Bytes fp = fingerprint(*pe);
    const bool detached = bad == 3;
    section other; other.set_raw_data(Bytes(0x100, 0));
    c.desc(" offset %#x, argument %d", off, bad);
    c.step();
    bool refused = false;
    try { rebuild_tls(*pe, t, detached ? other : pe->get_image_sections()[at], off); } catch(const pe_exception&) { refused = true; }
    MC_REQUIRE(c, refused == (bad || pos + size > 0x600), "refused", "offset %#x, argument %d: %s", off, bad, refused ? "refused" : "not refused");
    if(refused) reb::unchanged(c, *pe, fp, "the directory");
    c.outcome(off * 4 + bad);
}
namespace mc
{
const Part parts[] = {
    { "descriptions", descriptions, 2, 3, "all descriptions over 5 (6) data lengths, 7 places of data and 7 of callbacks (own section, first section, across the end of raw data, end of virtual data, outside, end of the image), 3 callback counts, with up to 2 (3) settings changed (9 layouts, offsets, writing options, expansion, data shorter or longer than its range, fields)" },
    { "sizes", sizes, 0, 0, "0..129 (0..889) and up to 65536 bytes of data, callbacks or both in 6 layouts and 4 places; stored, or refused exactly when they do not fit" },
    { "refusals", refusals, 0, 0, "every offset into a section of 0x600 bytes, and descriptions without index, with reversed data range or a foreign section: refused exactly when due and without change" },
};
const int part_count = sizeof(parts) / sizeof(parts[0]);
}
