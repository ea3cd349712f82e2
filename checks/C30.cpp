// C30: bitmap resources survive writing and reading.
#include "reb.h"
#include "res.h"
using namespace u;
const char* const mc::check_id = "C30";

// A bitmap file as the format describes it
struct Bmp { uint32_t hdr, bits, comp, used, pixels; };
static Bytes file_of(const Bmp& b, uint8_t seed)
{
    Bytes info;
    ref::app32(info, b.hdr); ref::app32(info, 3 + seed); ref::app32(info, 0xfffffffe); ref::app16(info, 1); ref::app16(info, b.bits);
    ref::app32(info, b.comp); ref::app32(info, b.pixels); ref::app32(info, 2835); ref::app32(info, 2835); ref::app32(info, b.used); ref::app32(info, 0);
    info += img::pattern(b.hdr - 40, 0x30);                                  // longer headers carry masks and colour space
    if(b.comp == 3 && b.hdr == 40) info += img::pattern(12, 0x40);           // masks
    const uint32_t colours = b.used ? b.used : b.bits == 0 || b.bits > 8 ? 0 : 1u << b.bits;
    info += img::pattern(4 * colours, 0x50);
    Bytes f = "BM";
    ref::app32(f, 14 + info.size() + b.pixels); ref::app16(f, 0); ref::app16(f, 0); ref::app32(f, 14 + info.size());
    return f + info + img::pattern(b.pixels, seed);
}
static Bmp choose_bmp(mc::Ctx& c, int pixels)
{
    static const uint32_t depths[] = { 24, 1, 4, 8, 16, 32, 0, 2 }, hdrs[] = { 40, 108, 124 };
    Bmp b;
    b.bits = c.pick(depths, "depth"); b.hdr = c.pick(hdrs, "header"); b.comp = (b.bits == 16 || b.bits == 32) && c.flip("masks") ? 3 : b.bits == 0 ? 4 : b.bits == 4 || b.bits == 8 ? c.choose(2, "packed") * (b.bits == 4 ? 2 : 1) : 0;
    static const uint32_t used[] = { 0, 1, 2, 3, 16, 255, 256 };
    b.used = c.pick(used, "colours");
    b.pixels = c.choose(pixels, "pixel bytes");
    c.desc("%u bits, header %u, compression %u, %u colours, %u pixel bytes", b.bits, b.hdr, b.comp, b.used, b.pixels);
    return b;
}
static void expect(mc::Ctx& c, const char* how, const Bytes& got, const Bytes& want)
{
    if(got == want) return;
    MC_REQUIRE(c, got.size() == want.size(), "size", "%s: %zu bytes instead of %zu", how, got.size(), want.size());
    MC_REQUIRE(c, ref::get32(got, 10) == ref::get32(want, 10), "pixel-offset", "%s: pixels at %u instead of %u", how, ref::get32(got, 10), ref::get32(want, 10));
    MC_REQUIRE(c, ref::get32(got, 2) == ref::get32(want, 2), "file-size", "%s: size field %u instead of %u", how, ref::get32(got, 2), ref::get32(want, 2));
    for(size_t i = 0; i < want.size(); ++i) MC_REQUIRE(c, got[i] == want[i], "bytes", "%s: byte %zu differs", how, i);
}
static resource_directory through_image(const resource_directory& d, bool pe64)
{
    pe_base pe(fresh(pe64));
    section& s = add_sec(pe, "rsrc", Bytes(1, 'r'));
    resource_directory copy(d);
    rebuild_resources(pe, copy, s);
    const Bytes f = write_pe(pe);
    return get_resources(open_pe(f, false, false));
}
static void files(mc::Ctx& c)
{
    const Bytes f = file_of(choose_bmp(c, mc::tier_pick(6, 40)), 9);
    const bool named = c.flip("named");
    const uint32_t lang = c.flip("language") ? 0x409 : 0;
    resource_directory root;
    pe_resource_manager m(root);
    resource_bitmap_writer w(m);
    c.step();
    if(named) w.add_bitmap(f, L"PIC", lang, 1252, 77); else w.add_bitmap(f, 7, lang, 1252, 77);
    for(int round = 0; round < 3; ++round)
    {
        const pe_resource_viewer v(root);
        const resource_bitmap_reader r(v);
        if(named) { expect(c, "by name and language", r.get_bitmap_by_name(lang, L"PIC"), f); expect(c, "by name", r.get_bitmap_by_name(L"PIC"), f); }
        else { expect(c, "by identifier and language", r.get_bitmap_by_id_lang(lang, 7), f); expect(c, "by identifier", r.get_bitmap_by_id(7), f); }
        const res::Node n = res::from_library(c, root, round != 0);
        MC_REQUIRE(c, n.kids.size() == 1 && n.kids[0].id == 2 && n.kids[0].kids.size() == 1 && n.kids[0].kids[0].kids.size() == 1 && n.kids[0].kids[0].kids[0].data == f.substr(14), "stored", "what is stored is not the file without its file header");
        if(round < 2) root = through_image(root, round != 0);
    }
    c.outcome(mc::hash(f));
}
// Long palettes and many pixels
static void sizes(mc::Ctx& c)
{
    static const uint32_t depths[] = { 24, 8, 1, 32 }, hdrs[] = { 40, 124 }, used[] = { 0, 64, 255, 256, 257, 0x3fff, 0x4000, 0x10000 }, pixels[] = { 0, 1, 202, 256, 0x7fca, 0xffca, 0xfffb, 0xffff, 0x10000, 0x10001, 0x20003, 0x40000 };
    Bmp b;
    b.bits = c.pick(depths, "depth"); b.hdr = c.pick(hdrs, "header"); b.comp = b.bits == 32 && c.flip("masks") ? 3 : 0; b.used = c.pick(used, "colours"); b.pixels = c.pick(pixels, "pixel bytes");
    const Bytes f = file_of(b, 9);
    const bool named = c.flip("named");
    c.desc("%u bits, header %u, compression %u, %u colours, %u pixel bytes", b.bits, b.hdr, b.comp, b.used, b.pixels);
    resource_directory root;
    pe_resource_manager m(root);
    resource_bitmap_writer w(m);
    c.step();
    if(named) w.add_bitmap(f, L"PIC", 9, 1252, 77); else w.add_bitmap(f, 7, 9, 1252, 77);
    for(int round = 0; round < 2; ++round)
    {
        const pe_resource_viewer v(root);
        const resource_bitmap_reader r(v);
        if(named) { expect(c, "by name and language", r.get_bitmap_by_name(9, L"PIC"), f); expect(c, "by name", r.get_bitmap_by_name(L"PIC"), f); }
        else { expect(c, "by identifier and language", r.get_bitmap_by_id_lang(9, 7), f); expect(c, "by identifier", r.get_bitmap_by_id(7), f); }
        if(!round) root = through_image(root, named);
    }
    c.outcome(mc::hash(f));
    c.trace();
}
// Every beginning of a bitmap file
static void truncated(mc::Ctx& c)
{
    const Bytes f = file_of(choose_bmp(c, 2), 3);
    const int n = c.choose(static_cast<int>(std::min<size_t>(f.size(), 200)), "length");
    const Bytes g = f.substr(0, n);
    resource_directory root;
    pe_resource_manager m(root);
    resource_bitmap_writer w(m);
    c.step();
    c.desc("cut to %d", n);
    bool stored = true;
    try { w.add_bitmap(g, 1, 0); } catch(const pe_exception&) { stored = false; }
    MC_REQUIRE(c, stored == (n >= 14), "accepted", "%d bytes %s", n, stored ? "accepted" : "refused");
    if(!stored) { MC_REQUIRE(c, root.get_entry_list().empty(), "refused-changed", "refused but changed"); c.outcome(1); return; }
    const pe_resource_viewer v(root);
    bool read = true;
    Bytes b;
    try { b = resource_bitmap_reader(v).get_bitmap_by_id(1); } catch(const pe_exception&) { read = false; }
    MC_REQUIRE(c, read == (n >= 54), "short-read", "%d bytes %s", n, read ? "read" : "refused");
    if(read) { MC_REQUIRE(c, b.size() == g.size() && b.substr(14) == g.substr(14) && ref::get32(b, 2) == g.size() && ref::get32(b, 10) == ref::get32(f, 10), "cut", "the cut file reads back differently"); }
    c.outcome(mc::mix(n, read));
}
// File headers that state other sizes and positions than the file has: what counts is the file
static void stated(mc::Ctx& c)
{
    static const Bmp kinds[] = { { 40, 24, 0, 0, 5 }, { 40, 8, 0, 3, 300 }, { 124, 32, 3, 0, 64 }, { 40, 1, 0, 0, 0 } };
    const Bytes f = file_of(c.pick(kinds, "bitmap"), 9);
    static const int64_t abs_[] = { 0, 1, 13, 14, 15, 40, 53, 54, 55, 0x7fffffff, 0x80000000LL, 0xffffffffLL };
    const uint32_t n = static_cast<uint32_t>(f.size());
    const int k = c.choose(12 + 9, "stated size");
    Bytes g = f;
    ref::put32(g, 2, k < 12 ? static_cast<uint32_t>(abs_[k]) : n + static_cast<uint32_t>(k - 16));
    static const uint32_t at[] = { 0, 1, 14, 54, 0xffffffff };
    const int p = c.choose(6, "stated position");
    if(p) ref::put32(g, 10, at[p - 1]);
    if(c.flip("reserved")) ref::put32(g, 6, 0xdeadbeef);
    const bool named = c.flip("named");
    const uint32_t lang = c.flip("language") ? 0x407 : 0;
    const bool replaces = c.flip("replaces");
    c.desc("size %u stated, %u true, position %u stated", ref::get32(g, 2), n, ref::get32(g, 10));
    resource_directory root;
    pe_resource_manager m(root);
    resource_bitmap_writer w(m);
    if(replaces) { const Bytes o = file_of(kinds[1], 77); if(named) w.add_bitmap(o, L"PIC", lang); else w.add_bitmap(o, 7, lang); }
    c.step();
    if(named) w.add_bitmap(g, L"PIC", lang, 1252, 77); else w.add_bitmap(g, 7, lang, 1252, 77);
    const res::Node t = res::from_library(c, root, false);
    MC_REQUIRE(c, t.kids.size() == 1 && t.kids[0].id == 2 && t.kids[0].kids.size() == 1 && t.kids[0].kids[0].kids.size() == 1 && t.kids[0].kids[0].kids[0].data == f.substr(14), "stored", "what is stored is not the file without its file header");
    const pe_resource_viewer v(root);
    const resource_bitmap_reader r(v);
    if(named) { expect(c, "by name and language", r.get_bitmap_by_name(lang, L"PIC"), f); expect(c, "by name", r.get_bitmap_by_name(L"PIC"), f); }
    else { expect(c, "by identifier and language", r.get_bitmap_by_id_lang(lang, 7), f); expect(c, "by identifier", r.get_bitmap_by_id(7), f); }
    c.outcome(mc::hash(f));
}
// Signatures
static void signatures(mc::Ctx& c)
{
    Bmp b = { 40, 24, 0, 0, 4 };
    Bytes f = file_of(b, 3);
    const int a = c.choose(256, "first"), d = c.choose(256, "second");
    f[0] = static_cast<char>(a); f[1] = static_cast<char>(d);
    const bool named = c.flip("named");
    resource_directory root;
    pe_resource_manager m(root);
    resource_bitmap_writer w(m);
    bool ok = true;
    c.step();
    try { if(named) w.add_bitmap(f, L"A", 0); else w.add_bitmap(f, 1, 0); } catch(const pe_exception&) { ok = false; }
    MC_REQUIRE(c, ok == (a == 'B' && d == 'M'), "signature", "signature %02x %02x %s", a, d, ok ? "accepted" : "refused");
    MC_REQUIRE(c, ok || root.get_entry_list().empty(), "refused-changed", "refused but changed");
    c.outcome(ok);
}
// Additions, replacements and removals of several bitmaps
static void histories(mc::Ctx& c)
{
    struct Key { bool named; uint32_t id; uint32_t lang; bool operator<(const Key& o) const { return named != o.named ? named < o.named : id != o.id ? id < o.id : lang < o.lang; } };
    std::vector<std::pair<Key, Bytes> > model;
    resource_directory root;
    pe_resource_manager m(root);
    resource_bitmap_writer w(m);
    const wchar_t* names[] = { L"A", L"B" };
    const int n = mc::tier_pick(4, 5);
    for(int i = 0; i < n; ++i)
    {
        const int op = c.choose(2, "operation");
        Key k; k.named = c.flip("named"); k.id = c.choose(2, "which"); k.lang = c.choose(2, "language") * 0x409;
        size_t at = 0;
        while(at < model.size() && (model[at].first < k || k < model[at].first)) ++at;
        c.desc("%s %s%u/%x", op ? "remove" : "add", k.named ? "name " : "#", k.id, k.lang);
        c.step();
        if(op == 0)
        {
            Bmp b = { 40, i % 2 ? 8u : 24u, 0, 0, 3 };
            const Bytes f = file_of(b, static_cast<uint8_t>(i));
            if(k.named) w.add_bitmap(f, names[k.id], k.lang); else w.add_bitmap(f, k.id, k.lang);
            if(at < model.size()) model[at].second = f; else model.push_back(std::make_pair(k, f));
        }
        else
        {
            const bool r = k.named ? w.remove_bitmap(names[k.id], k.lang) : w.remove_bitmap(k.id, k.lang);
            MC_REQUIRE(c, r == (at < model.size()), "removed", "removal reported %d", r);
            if(r) model.erase(model.begin() + at);
        }
        const pe_resource_viewer v(root);
        const resource_bitmap_reader r(v);
        for(int x = 0; x < 8; ++x)
        {
            Key q; q.named = x & 1; q.id = x >> 1 & 1; q.lang = (x >> 2) * 0x409;
            const Bytes* want = 0;
            for(size_t j = 0; j < model.size(); ++j) if(!(model[j].first < q) && !(q < model[j].first)) want = &model[j].second;
            Bytes got; bool ok = true;
            try { got = q.named ? r.get_bitmap_by_name(q.lang, names[q.id]) : r.get_bitmap_by_id_lang(q.lang, q.id); } catch(const pe_exception&) { ok = false; }
            MC_REQUIRE(c, ok == (want != 0), "present", "bitmap %d is %s", x, ok ? "there" : "missing");
            if(want) expect(c, "after edits", got, *want);
        }
        uint64_t h = 0;
        for(size_t j = 0; j < model.size(); ++j) h += mc::mix(mc::hash(model[j].second), model[j].first.id * 4 + model[j].first.named * 2 + (model[j].first.lang != 0));
        c.state(h);
        c.outcome(h);
    }
    c.trace();
}
namespace mc
{
const Part parts[] = {
    { "files", files, 0, 0, "all bitmap files over 8 colour depths, 3 header versions, masks, palette sizes and up to 5 (39) pixel bytes, by name and identifier, before and after writing into both kinds of images; outcome: distinct file read back" },
    { "sizes", sizes, 0, 0, "palettes of up to 65536 colours and up to 256 KB of pixels, by name and identifier, before and after writing into an image" },
    { "stated", stated, 0, 0, "21 stated file sizes around and far from the true one, 6 stated pixel positions, reserved fields, named and numbered, new and replacing, on 4 kinds of bitmaps" },
    { "truncated", truncated, 0, 0, "every beginning (up to 200 bytes) of all these files" },
    { "signatures", signatures, 0, 0, "all 65536 signatures" },
    { "histories", histories, 0, 0, "all sequences of 4 (5) additions and removals over 2 names, 2 identifiers and 2 languages; outcome: distinct set of bitmaps" },
};
const int part_count = sizeof(parts) / sizeof(parts[0]);
}
