// C07: section edits keep the section table consistent.
#include "scen.h"
using namespace u;
const char* const mc::check_id = "C07";

struct World
{
    std::unique_ptr<pe_base> pe;
    std::vector<Bytes> data;        // expected content of each section
    std::vector<bool> cut;          // the caller asked for a virtual size below the raw size
};
static void invariant(mc::Ctx& c, const World& w)
{
    const pe_base& pe = *w.pe;
    const section_list& l = pe.get_image_sections();
    const uint32_t sa = pe.get_section_alignment();
    MC_REQUIRE(c, l.size() == w.data.size(), "count", "%zu sections, should be %zu", l.size(), w.data.size());
    uint64_t next = 0;
    for(size_t i = 0; i < l.size(); ++i)
    {
        const section& s = l[i];
        const uint64_t vs = ref::up(s.get_virtual_size() ? s.get_virtual_size() : s.get_size_of_raw_data(), sa);
        MC_REQUIRE(c, s.get_virtual_address() % sa == 0, "aligned", "section %zu at %#x, alignment %#x", i, s.get_virtual_address(), sa);
        MC_REQUIRE(c, !i || s.get_virtual_address() == next, i && s.get_virtual_address() < next ? "overlap" : "gap", "section %zu at %#x, the one before ends at %#llx", i, s.get_virtual_address(), static_cast<unsigned long long>(next));
        MC_REQUIRE(c, vs, "zero", "section %zu has no size", i);
        next = s.get_virtual_address() + vs;
        MC_REQUIRE(c, next <= 0x100000000ULL, "wrap", "section %zu ends at %#llx", i, static_cast<unsigned long long>(next));
        MC_REQUIRE(c, same_content(s.get_raw_data(), w.data[i]), "bytes", "section %zu lost or changed bytes (%zu bytes, expected %zu)", i, s.get_raw_data().size(), w.data[i].size());
        MC_REQUIRE(c, w.cut[i] || vs >= s.get_raw_data().size(), "cover", "section %zu: %#zx raw bytes, virtual size %#llx", i, s.get_raw_data().size(), static_cast<unsigned long long>(vs));
        MC_REQUIRE(c, pe.section_attached(s) && !pe.section_attached(section(s)), "attached", "section %zu: a section of the image is attached, a copy of it is not", i);
        MC_REQUIRE(c, s.get_size_of_raw_data() >= rtrim(w.data[i]).size(), "raw-size", "section %zu: size of raw data %#x, content %#zx", i, s.get_size_of_raw_data(), rtrim(w.data[i]).size());
    }
}
static const uint32_t big = 0xfffffff0;
// The headers state the size and the number of the sections
static bool stated(const pe_base& pe)
{
    const section_list& l = pe.get_image_sections();
    if(l.empty()) return false;
    const section& s = l.back();
    return pe.get_number_of_sections() == l.size() && pe.get_size_of_image() == s.get_virtual_address() + static_cast<uint64_t>(ref::up(s.get_virtual_size() ? s.get_virtual_size() : s.get_size_of_raw_data(), pe.get_section_alignment()));
}
static bool some_op(mc::Ctx& c, World& w, int op)
{
    const bool was_stated = stated(*w.pe);
    pe_base& pe = *w.pe;
    section_list& l = pe.get_image_sections();
    const uint32_t sa = pe.get_section_alignment();
    const Bytes before = fingerprint(pe);
    bool must_refuse = false, may_refuse = false, threw = false;
    World undo;
    undo.data = w.data; undo.cut = w.cut;
    Bytes raw_undo; size_t raw_at = 0; bool has_undo = false;
    section free_sec; free_sec.set_name("free"); free_sec.set_raw_data(img::pattern(0x10, 1)); free_sec.set_virtual_address(0x1000); free_sec.set_virtual_size(0x20); free_sec.set_size_of_raw_data(0x10);
    try
    {
        switch(op)
        {
        // additions: raw length x virtual size x automatic update of the section before
        case 0: c.desc(" add(1)"); w.data.push_back("A"); add_sec(pe, "a", "A"); break;
        case 1: c.desc(" add(201)"); w.data.push_back(img::pattern(0x201, 2)); add_sec(pe, "b", w.data.back()); break;
        case 2: c.desc(" add(bss)"); w.data.push_back(Bytes()); add_sec(pe, "c", Bytes(), 3); break;
        case 3: c.desc(" add(200,vs>)"); w.data.push_back(img::pattern(0x200, 3)); add_sec(pe, "d", w.data.back(), 0x1801); break;
        case 4: c.desc(" add(1234,vs<)"); w.data.push_back(img::pattern(0x1234, 4)); add_sec(pe, "e", w.data.back(), 0x10); break;
        case 5: { c.desc(" add(noauto)"); w.data.push_back(img::pattern(0x33, 5)); section s; s.set_raw_data(w.data.back()); pe.add_section(s, false); break; }
        case 6: c.desc(" add(zero)"); must_refuse = true; w.data.push_back(Bytes()); add_sec(pe, "z", Bytes()); break;
        case 7: c.desc(" add(2GB)"); may_refuse = true; w.data.push_back(Bytes()); add_sec(pe, "y", Bytes(), 0x7fff0000); break;
        case 8: c.desc(" add(4GB)"); must_refuse = true; w.data.push_back(Bytes()); add_sec(pe, "x", Bytes(), big); break;
        // virtual size of the last, another, a free section
        case 9: if(l.empty()) return false; c.desc(" vs(last,5001)"); pe.set_section_virtual_size(l.back(), 0x5001); if(0x5001 < l.back().get_raw_data().size()) w.cut.back() = true; break;
        case 10: if(l.empty()) return false; c.desc(" vs(last,1)"); w.cut.back() = true; pe.set_section_virtual_size(l.back(), 1); break;
        case 11: if(l.empty()) return false; c.desc(" vs(last,0)"); must_refuse = l.back().empty(); pe.set_section_virtual_size(l.back(), 0); break;
        case 12: if(l.size() < 2) return false; c.desc(" vs(first,9000)"); must_refuse = true; pe.set_section_virtual_size(l.front(), 0x9000); break;
        case 13: if(l.empty()) return false; c.desc(" vs(last,4GB)"); must_refuse = true; pe.set_section_virtual_size(l.back(), big); break;
        // expansion
        case 14: if(l.empty()) return false; { c.desc(" expand(last,raw)"); section& s = l.back(); pe.expand_section(s, s.get_virtual_address() + 1, 0x345, pe_base::expand_section_raw); MC_REQUIRE(c, s.get_raw_data().size() >= 0x346 && (w.cut.back() || pe.section_data_length_from_rva(s.get_virtual_address(), section_data_virtual) >= 0x346), "expanded", "not expanded"); break; }
        case 15: if(l.empty()) return false; { c.desc(" expand(last,virtual)"); section& s = l.back(); const uint32_t at = s.get_aligned_virtual_size(sa) - 1; pe.expand_section(s, s.get_virtual_address() + at, 0x20, pe_base::expand_section_virtual); MC_REQUIRE(c, s.get_aligned_virtual_size(sa) >= at + 0x20, "expanded", "not expanded"); break; }
        case 16: if(l.size() < 2) return false; c.desc(" expand(first)"); must_refuse = true; pe.expand_section(l.front(), l.front().get_virtual_address(), 0x10000, pe_base::expand_section_raw); break;
        case 17: if(l.empty()) return false; c.desc(" expand(last,4GB)"); must_refuse = true; pe.expand_section(l.back(), l.back().get_virtual_address() + 1, 0xffffffff, c.flip("kind") ? pe_base::expand_section_raw : pe_base::expand_section_virtual); break;
        // alignment
        case 18: c.desc(" fa(400)"); must_refuse = sa < 0x400; pe.set_file_alignment(0x400); break;
        case 19: c.desc(" realign(1000)"); must_refuse = sa < 0x1000; pe.realign_file(0x1000); break;
        case 20: c.desc(" realign(200)"); must_refuse = sa < 0x200; pe.realign_file(0x200); break;
        case 21: { static const uint32_t bad[] = { 0, 1, 0x100, 0x300, 0x80000000 }; const uint32_t a = c.pick(bad, "alignment"); c.desc(" realign(%#x)", a); must_refuse = true; if(c.flip("file")) pe.realign_file(a); else pe.set_file_alignment(a); break; }
        case 22: c.desc(" realign_section(0)"); must_refuse = l.empty(); pe.realign_section(0); break;
        case 23: c.desc(" realign_section(n)"); must_refuse = true; pe.realign_section(static_cast<uint32_t>(l.size()) + c.choose(2, "beyond")); break;
        case 24: c.desc(" realign_all"); pe.realign_all_sections(); break;
        // size recalculation after the caller changed raw data
        case 25: case 26: case 27: case 28:
        {
            if(l.empty() || (op >= 27 && l.size() < 2)) return false;
            const size_t k = op >= 27 ? 0 : l.size() - 1;
            section& s = l[k];
            const bool strip = c.flip("strip");
            const bool grow = op % 2;
            c.desc(" %s+recalc(%zu,%d)", grow ? "append" : "shrink", k, strip);
            raw_undo = s.get_raw_data(); raw_at = k; has_undo = true;
            // content written by the caller ends with bytes that are not zero
            if(grow) { const size_t n = c.flip("much") ? 0x2345 : 0x11; s.get_raw_data() += img::pattern(n, 6); must_refuse = op >= 27 && ref::up(s.get_raw_data().size(), pe.get_file_alignment()) > s.get_aligned_virtual_size(sa); }
            else s.get_raw_data().resize(s.get_raw_data().size() / 2);
            w.data[k] = s.get_raw_data();
            if(s.get_raw_data().empty() && !s.get_virtual_size()) must_refuse = true;
            pe.recalculate_section_sizes(s, strip);
            if(!must_refuse) w.cut[k] = false;
            break;
        }
        case 29: c.desc(" prepare(free)"); pe.prepare_section(free_sec); MC_REQUIRE(c, free_sec.get_size_of_raw_data() == ref::up(0x10, pe.get_file_alignment()) && free_sec.get_virtual_size() >= free_sec.get_size_of_raw_data(), "prepare", "free section not prepared"); break;
        case 30: if(l.empty()) return false; c.desc(" vs(free)"); pe.set_section_virtual_size(free_sec, 0x123); MC_REQUIRE(c, free_sec.get_virtual_size() == 0x123, "free", "free section not changed"); break;
        case 31: if(l.empty()) return false; c.desc(" views"); for(size_t i = 0; i < l.size(); ++i) if(l[i].get_virtual_size() < 0x100000) l[i].get_virtual_data(sa); break;
        case 34:
        {
            // data written into the last section in place (as far as it has room), then another section is added
            if(l.empty()) return false;
            section& s = l.back();
            const uint32_t room = s.get_aligned_virtual_size(sa);
            const size_t have = s.get_raw_data().size(), n = c.flip("much") ? 0x712 : 0x11;
            if(room > 0x100000 || ref::up(have + n, pe.get_file_alignment()) > room) return false;
            c.desc(" append(%zx)+add", n);
            raw_undo = s.get_raw_data(); raw_at = l.size() - 1; has_undo = true;
            s.get_raw_data() += img::pattern(n, 7);
            w.data.back() = s.get_raw_data();
            w.data.push_back(img::pattern(0x21, 8)); add_sec(pe, "f", w.data.back());
            break;
        }
        case 32: case 33:
        {
            c.desc(op == 32 ? " image-size" : " section-count");
            const uint32_t size = pe.get_size_of_image(); const uint16_t count = pe.get_number_of_sections();
            if(op == 32) pe.update_image_size(); else MC_REQUIRE(c, pe.update_number_of_sections() == l.size(), "count", "section count");
            const uint64_t end = l.empty() ? pe.get_size_of_headers() : l.back().get_virtual_address() + static_cast<uint64_t>(ref::up(l.back().get_virtual_size() ? l.back().get_virtual_size() : l.back().get_size_of_raw_data(), sa));
            MC_REQUIRE(c, pe.get_size_of_image() == (op == 32 ? static_cast<uint32_t>(end) : size) && pe.get_number_of_sections() == (op == 33 ? l.size() : count), "update", "image size %#x, section count %u after the update", pe.get_size_of_image(), pe.get_number_of_sections());
            break;
        }
        }
    }
    catch(const pe_exception&) { threw = true; }
    c.step();
    if(threw)
    {
        MC_REQUIRE(c, must_refuse || may_refuse, "refused", "operation was refused");
        if(has_undo) l[raw_at].get_raw_data() = raw_undo;
        w.data = undo.data; w.cut = undo.cut;
        MC_REQUIRE(c, fingerprint(pe) == before, "refused-changed", "refused operation changed the image");
        return true;
    }
    MC_REQUIRE(c, !must_refuse, "accepted", "operation should have been refused");
    // adding sections and setting virtual sizes update the headers at once
    const bool at_once = op <= 13 || op == 15 || op == 30 || op == 34;
    MC_REQUIRE(c, !at_once || !was_stated || stated(pe), "stated", "SizeOfImage %#x, NumberOfSections %u do not tell the %zu sections any more", pe.get_size_of_image(), pe.get_number_of_sections(), l.size());
    w.cut.resize(w.data.size(), false);
    return true;
}
// Every sequence of operations, then the image is written
static void explore(mc::Ctx& c, World& w, int depth)
{
    const section_list& l = static_cast<const pe_base&>(*w.pe).get_image_sections();
    for(size_t i = 0; i < l.size(); ++i) w.data.push_back(l[i].get_raw_data());
    w.cut.assign(w.data.size(), false);
    invariant(c, w);
    for(int i = 0; i < depth; ++i)
    {
        if(!some_op(c, w, c.choose(35, "operation"))) return;
        invariant(c, w);
        c.state(mc::hash(fingerprint(*w.pe)));
    }
    // written, the table and the headers agree
    uint64_t end = 0;
    for(size_t i = 0; i < l.size(); ++i) end += l[i].get_virtual_size();
    if(end > 0x10000000 && !mc::thorough()) { c.outcome(mc::hash(fingerprint(*w.pe))); return; }
    Bytes f;
    try { f = write_pe(*w.pe, false, true, true); }
    catch(const pe_exception& e) { MC_REQUIRE(c, e.get_id() == pe_exception::cannot_rebuild_image && !l.empty() && l[0].get_virtual_address() < std::max<uint32_t>(0x1000, w.pe->get_section_alignment()), "write-refused", "writing was refused: %s", e.what()); return; }
    invariant(c, w);
    const pe_base& pe = *w.pe;
    const uint64_t image = l.empty() ? pe.get_size_of_headers() : l.back().get_virtual_address() + l.back().get_aligned_virtual_size(pe.get_section_alignment());
    MC_REQUIRE(c, pe.get_size_of_image() == image && pe.get_number_of_sections() == l.size(), "headers", "SizeOfImage %#x, should be %#llx; NumberOfSections %u", pe.get_size_of_image(), static_cast<unsigned long long>(image), pe.get_number_of_sections());
    World r;
    try { r.pe.reset(new pe_base(open_pe(f))); }
    catch(const std::exception& e) { c.fail("reopen", "written image cannot be opened: %s", e.what()); }
    r.data = w.data; r.cut = w.cut;
    for(size_t i = 0; i < r.data.size(); ++i) if(w.cut[i])
    {
        const uint64_t vs = l[i].get_aligned_virtual_size(pe.get_section_alignment());
        if(r.data[i].size() > vs || ref::up(l[i].get_size_of_raw_data(), pe.get_file_alignment()) > vs) r.data[i] = r.data[i].substr(0, l[i].get_virtual_size());
    }
    invariant(c, r);
    c.outcome(mc::hash(f));
    c.trace();
}
static void sequences(mc::Ctx& c)
{
    World w;
    const int n = c.choose(scen::sources + 1, "source");
    const bool pe64 = c.flip("flavour");
    if(n < scen::sources) w.pe = scen::source(n, pe64);
    else
    {
        // virtual sizes of zero, as old linkers write them
        ref::Spec s(pe64);
        s.add("v0", img::pattern(0x1200, 7)); s.add("v1", Bytes(0x200, 0)); s.add("v2", Bytes(0x200, 0));
        for(int i = 0; i < 3; ++i) s.secs[i].vsize = 0;
        w.pe.reset(new pe_base(open_pe(s.build())));
    }
    c.desc("%s source %d:", pe64 ? "PE+" : "PE", n);
    const bool deep = !pe64 && (n == img::k_plain || n == img::k_bss || n == img::k_lowalign || n == img::kinds + 2 || n == scen::sources);
    explore(c, w, mc::tier_pick(2, 3) + deep);
}
// Any number of sections up to the limit
static void many(mc::Ctx& c)
{
    World w;
    const int n = c.choose(96, "sections");
    const bool pe64 = c.flip("flavour");
    static const uint32_t al[][2] = { { 0x1000, 0x200 }, { 0x200, 0x200 } };
    const int a = c.choose(2, "alignments"), pat = c.choose(mc::tier_pick(1, 4), "sizes");
    c.desc("%s %d sections, alignments %#x/%#x, sizes %d:", pe64 ? "PE+" : "PE", n, al[a][0], al[a][1], pat);
    w.pe.reset(new pe_base(open_pe(scen::many_spec(n, pe64, al[a][0], al[a][1], pat).build())));
    explore(c, w, 1);
}
// A new image whose first section asks for an address of its own
static void first_address(mc::Ctx& c)
{
    const bool pe64 = c.flip("flavour");
    static const uint32_t al[] = { 0x200, 0x1000, 0x2000, 0x10000 };
    static const uint32_t at[] = { 0, 1, 0x200, 0x201, 0xfff, 0x1000, 0x1001, 0x2200, 0x10000, 0x12345, 0x7ffff000, 0x7fffffff, 0xfffe0000, 0xffffe000, 0xfffff000, 0xfffff001, 0xffffffff };
    const uint32_t sa = c.pick(al, "section alignment"), va = c.pick(at, "address");
    static const uint32_t sizes[] = { 0, 0x1234, 0x20000, 0x80000000, 0x80001000, 0xfffff000, 0xffffffff };
    const uint32_t vs = c.pick(sizes, "virtual size");
    const bool bss = vs && c.flip("no raw data");
    World w;
    w.pe.reset(new pe_base(fresh(pe64, sa)));
    section s;
    s.set_name("first");
    if(!bss) s.set_raw_data(img::pattern(0x321, 4));
    s.set_virtual_size(vs);
    s.set_virtual_address(va);
    c.desc("%s alignment %#x, first section of %#x%s asks for %#x:", pe64 ? "PE+" : "PE", sa, vs, bss ? " (no raw data)" : "", va);
    const uint64_t place = va ? ref::up(va, sa) : ref::up(0x400, sa), size = ref::up(vs ? vs : ref::up(0x321, 0x200), sa);
    const bool fits = place + size <= 0xffffffff, edge = place + size == 0x100000000ULL || (fits && vs > 0x80000000u);
    const Bytes before = fingerprint(*w.pe);
    bool refused = false;
    try { w.pe->add_section(s); }
    catch(const pe_exception&) { refused = true; }
    MC_REQUIRE(c, edge || refused != fits, refused ? "first-refused" : "first-accepted", "the first section was %s", refused ? "refused" : "accepted");
    if(refused)
    {
        MC_REQUIRE(c, fingerprint(*w.pe) == before, "refused-changed", "refused operation changed the image");
        c.outcome(0); c.step();
        return;
    }
    const section& k = static_cast<const pe_base&>(*w.pe).get_image_sections()[0];
    MC_REQUIRE(c, va % sa || va < sa || k.get_virtual_address() == va, "first-moved", "section placed at %#x", k.get_virtual_address());
    explore(c, w, place + size > 0xf0000000u || size > 0x10000000 ? 0 : mc::tier_pick(1, 2));
}
// Only zero bytes are trailing zero bytes
static void tails(mc::Ctx& c)
{
    static const uint32_t body[] = { 0, 1, 0x1ff, 0xfff }, zeros[] = { 0, 1, 2, 0x200 };
    const Bytes data = Bytes(c.pick(body, "before"), '\0') + Bytes(1, static_cast<char>(c.choose(256, "last byte"))) + Bytes(c.pick(zeros, "zero bytes behind"), '\0');
    const int at = c.choose(3, "position"), op = c.choose(7, "operation");
    const bool pe64 = c.flip("flavour");
    World w;
    w.pe.reset(new pe_base(fresh(pe64, 0x1000)));
    pe_base& pe = *w.pe;
    for(int i = 0; i < 3; ++i) { w.data.push_back(i == at ? data : Bytes("other")); w.cut.push_back(false); add_sec(pe, "s", w.data[i]); }
    c.desc("%s section %d of %zu bytes, the last byte but zeros %#x, operation %d", pe64 ? "PE+" : "PE", at, data.size(), rtrim(data).empty() ? 0 : rtrim(data).back() & 0xff, op);
    section& s = pe.get_image_sections()[at];
    switch(op)
    {
    case 0: pe.realign_file(0x1000); break;
    case 1: pe.realign_file(0x200); break;
    case 2: pe.realign_section(static_cast<uint32_t>(at)); break;
    case 3: pe.realign_all_sections(); break;
    case 4: pe.recalculate_section_sizes(s, false); break;
    case 5: pe.recalculate_section_sizes(s, true); break;
    default: pe.prepare_section(s); break;
    }
    invariant(c, w);
    const pe_base q(open_pe(write_pe(pe)));
    invariant(c, w);
    for(size_t i = 0; i < 3; ++i) MC_REQUIRE(c, same_content(q.get_image_sections()[i].get_raw_data(), w.data[i]), "written-bytes", "section %zu lost or changed bytes in the file", i);
    c.outcome(mc::hash(fingerprint(pe)));
    c.state(mc::hash(fingerprint(pe)));
    c.step();
}
// The 96 section limit
static void limit(mc::Ctx& c)
{
    pe_base pe(fresh(c.flip("flavour"), 0x1000));
    const bool chg = c.flip("bigger headers");
    std::vector<Bytes> d;
    for(int i = 0; i < 96; ++i) { d.push_back(i % 3 ? Bytes(1, static_cast<char>('a' + i % 26)) : Bytes()); add_sec(pe, "s", d[i], i % 3 ? 0 : 1); c.step(); }
    const Bytes before = fingerprint(pe);
    bool refused = false;
    const int kind = c.choose(3, "kind");
    try { section s; s.set_raw_data(kind ? "q" : ""); s.set_virtual_size(kind == 2 ? 0x1000 : 1); pe.add_section(s, kind != 1); } catch(const pe_exception& e) { refused = e.get_id() == pe_exception::no_more_sections_can_be_added; }
    MC_REQUIRE(c, refused && fingerprint(pe) == before, "limit", "the 97th section was not refused cleanly");
    MC_REQUIRE(c, pe.get_number_of_sections() == 96, "count", "count");
    if(chg)
    {
        // 96 section headers do not fit in front of the first section
        refused = false;
        try { write_pe(pe); } catch(const pe_exception& e) { refused = e.get_id() == pe_exception::cannot_rebuild_image; }
        MC_REQUIRE(c, refused, "long-headers", "headers longer than the first section address were written");
    }
    c.outcome(kind);
    c.state(mc::hash(before));
}
namespace mc
{
const Part parts[] = {
    { "sequences", sequences, 0, 0, "every sequence of 2 (3) of 35 section operations (with sub-choices) from 17 images x 2 flavours, one operation more for 5 of the images; invariants after every operation, then written and reopened; a state is the full value of the image" },
    { "many-sections", many, 0, 0, "each operation on images of 0 to 95 sections in 2 alignments, both flavours and 1 (4) patterns of sizes" },
    { "first-address", first_address, 0, 0, "new images of 4 section alignments whose first section, with or without raw data, asks for each of 12 addresses, then every sequence of 1 (2) operations" },
    { "tails", tails, 0, 0, "sections whose content ends with each byte and 0 to 512 zero bytes, at 3 positions, realigned, recalculated or prepared, then written and reopened" },
    { "limit", limit, 0, 0, "the section limit" },
};
const int part_count = sizeof(parts) / sizeof(parts[0]);
}
