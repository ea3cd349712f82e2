// C24: Debug information is decoded exactly.
#include "util.h"
#include "images.h"
using namespace u;
using ref::Spec;
const char* const mc::check_id = "C24";

// ---------------------------------------------------------------- independent decoder
struct Sym { uint32_t index, cls, sec, rva; uint16_t type; bool file; Bytes name; };
struct Info
{
    enum K { none, cv70, cv20, misc, coff, cv4, cv5, cvx, bad } k;
    Bytes guid, name; uint32_t age, sig, dtype; bool uni; std::vector<uint16_t> wide; uint32_t hdr[8]; std::vector<Sym> syms;
    bool may_refuse;                    // a form that a reader may also turn down
    Info() : k(none), age(0), sig(0), dtype(0), uni(false), may_refuse(false) {}
};
static Info bad() { Info i; i.k = Info::bad; return i; }
static Bytes upto0(const Bytes& b, size_t o) { return b.substr(o, b.find('\0', o) - o); }
static bool has0(const Bytes& b, size_t o) { return b.find('\0', o) != Bytes::npos; }
static Info decode(uint32_t type, const Bytes& b)
{
    Info r;
    if(type == 2)
    {
        if(b.size() < 8) { r.may_refuse = true; return r; }
        const Bytes s = b.substr(0, 4);
        if(s == "RSDS")
        {
            if(b.size() < 25 || !has0(b, 24)) return bad();
            r.k = Info::cv70; r.guid = b.substr(4, 16); r.age = ref::get32(b, 20); r.name = upto0(b, 24);
        }
        else if(s == "NB10")
        {
            if(b.size() < 17 || !has0(b, 16)) return bad();
            r.k = Info::cv20; r.sig = ref::get32(b, 8); r.age = ref::get32(b, 12); r.name = upto0(b, 16);
        }
        else if(s == "NB09") r.k = Info::cv4;
        else if(s == "NB11") r.k = Info::cv5;
        else if(s == "NB05") r.k = Info::cvx;
        return r;
    }
    if(type == 4)
    {
        if(b.size() < 12) return bad();
        const uint32_t len = ref::get32(b, 4);
        if(len < 12 || len > b.size()) return bad();
        r.k = Info::misc; r.dtype = ref::get32(b, 0); r.uni = b[8] != 0;
        r.may_refuse = b.size() < 13;
        if(r.uni)
        {
            for(size_t i = 12; i + 2 <= len; i += 2) r.wide.push_back(ref::get16(b, i));
            while(!r.wide.empty() && !r.wide.back()) r.wide.pop_back();
            for(size_t i = 0; i < r.wide.size(); ++i) if(r.wide[i] >= 0xd800 && r.wide[i] < 0xe000) r.may_refuse = true;
        }
        else r.name = rtrim(b.substr(12, len - 12));
        return r;
    }
    if(type == 1)
    {
        if(b.size() < 32) return bad();
        for(int i = 0; i < 8; ++i) r.hdr[i] = ref::get32(b, 4 * i);
        const uint64_t n = r.hdr[0], at = r.hdr[1], strs = at + 18 * n;
        if(strs > b.size()) return bad();
        r.k = Info::coff;
        for(uint64_t i = 0; i < n; ++i)
        {
            const size_t o = at + 18 * i;
            const unsigned cls = static_cast<uint8_t>(b[o + 16]), aux = static_cast<uint8_t>(b[o + 17]);
            const int16_t sec = static_cast<int16_t>(ref::get16(b, o + 12));
            const uint16_t ty = ref::get16(b, o + 14);
            if(i + 1 + aux > n) return bad();
            Sym s = { static_cast<uint32_t>(i), cls, 0, 0, ty, false, "" };
            if(cls == 103) { s.file = true; s.name = rtrim(b.substr(o + 18, 18 * aux)); r.syms.push_back(s); }
            else if((cls == 3 && !aux && sec == 1) || (cls == 2 && (ty & 0x30) == 0x20 && sec > 0))
            {
                s.sec = static_cast<uint32_t>(sec); s.rva = ref::get32(b, o + 8);
                if(ref::get32(b, o)) { Bytes n8 = b.substr(o, 8); n8.resize(std::min<size_t>(8, n8.find('\0'))); s.name = n8; }
                else
                {
                    const uint64_t p = strs + ref::get32(b, o + 4);
                    if(p >= b.size() || !has0(b, p)) return bad();
                    s.name = upto0(b, p);
                }
                r.syms.push_back(s);
            }
            i += aux;
        }
        return r;
    }
    return r;
}

// ---------------------------------------------------------------- payloads
static Bytes P(const char* s, size_t n) { return Bytes(s, n); }
static Bytes cv70(const Bytes& name, uint32_t age = 1) { Bytes b = "RSDS"; b += img::pattern(16, 77); ref::app32(b, age); b += name; b.push_back(0); return b; }
static Bytes cv20(const Bytes& name, uint32_t age = 1) { Bytes b = "NB10"; ref::app32(b, 0); ref::app32(b, 0x8877f6f5u); ref::app32(b, age); b += name; b.push_back(0); return b; }
static Bytes cvother(const char* s) { Bytes b = s; ref::app32(b, 0x1234); return b; }
static Bytes misc(const Bytes& data, bool uni, uint32_t dt = 1) { Bytes b; ref::app32(b, dt); ref::app32(b, 12 + data.size()); b.push_back(uni); b += P("\0\0\0", 3); return b + data; }
static Bytes wide(const char* s, size_t n) { Bytes b; for(size_t i = 0; i < n; ++i) ref::app16(b, static_cast<uint8_t>(s[i]) * 0x101u); return b; }
struct Rec { Bytes b; };
static Bytes sym(const Bytes& name, uint32_t value, int sec, unsigned type, unsigned cls, unsigned aux)
{
    Bytes b = name; b.resize(8, 0);
    ref::app32(b, value); ref::app16(b, static_cast<uint16_t>(sec)); ref::app16(b, type); b.push_back(static_cast<char>(cls)); b.push_back(static_cast<char>(aux));
    return b;
}
static Bytes longname(uint32_t off) { Bytes b(4, 0); ref::app32(b, off); return b; }
// symbol kinds; strings "long_symbol_name" at 4 and "x" at 21 of the string table
static const Bytes strtab = P("\x17\0\0\0long_symbol_name\0x\0", 23);
enum { sym_kinds = 15 };
static Bytes symbol(int k)
{
    const Bytes hostile = sym("FAKE", 0x77, 1, 0x20, 3, 0);      // an auxiliary record that would pass for a symbol
    switch(k)
    {
    case 0: return sym("stat", 0x11223344, 1, 0, 3, 0);
    case 1: return sym("func8chr", 0x1040, 2, 0x20, 2, 0);
    case 2: return sym(longname(4), 0xfffffffc, 1, 0x20, 2, 0);
    case 3: return sym(longname(21), 0, 0x7fff, 0x2f, 2, 0);
    case 4: return sym(".file", 0, -2, 0, 103, 1) + P("a.c\0\0\0\0\0\0\0\0\0\0\0\0\0\0\0", 18);
    case 5: return sym(".file", 0, -2, 0, 103, 2) + P("twenty_byte_file_nam", 20) + Bytes(16, 0);
    case 6: return sym(".file", 0, -2, 0, 103, 0);
    case 7: return sym(".file", 0, -2, 0, 103, 1) + P("exactly_18_bytes.c", 18);
    case 8: return sym(".text", 0, 1, 0, 3, 1) + hostile;                                  // section definition
    case 9: return sym("func", 0x2000, 1, 0x20, 2, 1) + hostile;                           // function definition
    case 10: return sym(".bf", 5, 1, 0, 101, 1) + sym("x", 0, 1, 0x20, 2, 9);              // its unused bytes look like a count
    case 11: return sym("data", 0x3000, 2, 0, 2, 0);                                       // external, not a function
    case 12: return sym("undef", 0, 0, 0x20, 2, 0);
    case 13: return sym("stat2", 0x10, 2, 0, 3, 0);                                        // static of another section
    default: return sym("weak", 0, 0, 0, 105, 2) + hostile + hostile;
    }
}
static Bytes coff(const std::vector<int>& ks, uint32_t gap, bool strs = true)
{
    Bytes recs; unsigned n = 0;
    for(size_t i = 0; i < ks.size(); ++i) { Bytes s = symbol(ks[i]); n += s.size() / 18; recs += s; }
    Bytes b;
    ref::app32(b, n); ref::app32(b, 32 + gap); ref::app32(b, 0x0a0b); ref::app32(b, 0x0c0d0e0f); ref::app32(b, 0x1000); ref::app32(b, 0x2000); ref::app32(b, 0x3000); ref::app32(b, 0xffffffffu);
    b += img::pattern(gap, 3);
    b += recs;
    if(strs) b += strtab;
    return b;
}

// ---------------------------------------------------------------- images
struct Ent { uint32_t chars, stamp, major, minor, type; Bytes data; int where; uint32_t rva; uint32_t ptr; uint32_t size; };
enum { in_raw, in_tail, in_hdr, outside, nowhere };
static Ent ent(uint32_t type, const Bytes& data, int where = in_raw)
{ Ent e = { 0, 0x4a000001, 0, 0, type, data, where, 0, 0, static_cast<uint32_t>(data.size()) }; return e; }
struct Layout { bool pe64, mem; int dirpos; int slack; };   // dirpos: 0 front, 1 end of raw data, 2 end of virtual data (all of it stored), 3 headers; slack: null entries counted in the size
static Bytes build(std::vector<Ent>& es, const Layout& l, Bytes* opened)
{
    Spec s(l.pe64);
    s.hdrsize = 0x600;
    Bytes d = img::pattern(0x40, 5);
    const size_t dirlen = 28 * (es.size() + l.slack);
    const size_t dpos0 = d.size();
    if(l.dirpos == 0) d += Bytes(dirlen, 0);
    for(size_t i = 0; i < es.size(); ++i) if(es[i].where == in_raw) { es[i].rva = 0x1000 + d.size(); es[i].ptr = 0x600 + d.size(); d += es[i].data; d += Bytes((4 - d.size() % 4) % 4 + 4, '\x5c'); }
    size_t raw = ref::up(d.size() + dirlen, 0x200), dpos = dpos0;
    uint32_t vsize = 0;
    if(l.dirpos == 1) { d.resize(raw, 0); dpos = raw - dirlen; vsize = raw; }
    else if(l.dirpos == 2) { raw = vsize = ref::up(raw, 0x1000); d.resize(raw, 0x3c); dpos = raw - dirlen; }
    s.add(".rdata", d, vsize ? vsize : 0);
    s.add(".data", img::pattern(0x10, 6));
    uint32_t tail = 0x600 + 0;
    for(size_t i = 0; i < s.secs.size(); ++i) if(s.secs[i].rawsize) tail = s.secs[i].rawptr + s.secs[i].rawsize;
    for(size_t i = 0; i < es.size(); ++i) if(es[i].where == in_tail) { es[i].ptr = tail + s.tail.size(); es[i].rva = 0; s.tail += es[i].data; s.tail += Bytes(i % 3, '\x7e'); }
    uint32_t hpos = 0x500;
    for(size_t i = 0; i < es.size(); ++i) if(es[i].where == in_hdr) { es[i].ptr = es[i].rva = hpos; hpos += ref::up(es[i].data.size(), 4); }
    for(size_t i = 0; i < es.size(); ++i) if(es[i].where == outside) { es[i].ptr = tail + s.tail.size() + 0x10; es[i].rva = 0; }
    for(size_t i = 0; i < es.size(); ++i) if(es[i].where == nowhere) { es[i].ptr = es[i].rva = 0; }
    Bytes dir;
    for(size_t i = 0; i < es.size(); ++i)
    { ref::app32(dir, es[i].chars); ref::app32(dir, es[i].stamp); ref::app16(dir, es[i].major); ref::app16(dir, es[i].minor); ref::app32(dir, es[i].type); ref::app32(dir, es[i].size); ref::app32(dir, es[i].rva); ref::app32(dir, es[i].ptr); }
    dir.resize(dirlen, 0);
    uint32_t drva = 0x1000 + dpos;
    if(l.dirpos == 3) drva = 0x600 - dirlen;
    else ref::putstr(s.secs[0].data, dpos, dir);
    s.dirs[6].rva = drva; s.dirs[6].size = dirlen;
    Bytes f;
    if(l.mem) { s.imagesize = s.secs[1].va + 0x1000; f = s.build_mapped(); }
    else f = s.build();
    if(l.dirpos == 3) ref::putstr(f, drva, dir);
    for(size_t i = 0; i < es.size(); ++i) if(es[i].where == in_hdr) ref::putstr(f, es[i].ptr, es[i].data);
    *opened = f;
    return f;
}
static const debug_info::debug_info_type types[] = { debug_info::debug_type_unknown, debug_info::debug_type_coff, debug_info::debug_type_codeview, debug_info::debug_type_fpo, debug_info::debug_type_misc,
    debug_info::debug_type_exception, debug_info::debug_type_fixup, debug_info::debug_type_omap_to_src, debug_info::debug_type_omap_from_src, debug_info::debug_type_borland, debug_info::debug_type_reserved10, debug_info::debug_type_clsid };

static void compare(mc::Ctx& c, const debug_info& g, const Ent& e, const Info& x, size_t i)
{
    MC_REQUIRE(c, g.get_characteristics() == e.chars && g.get_time_stamp() == e.stamp && g.get_major_version() == e.major && g.get_minor_version() == e.minor,
        "fields", "entry %zu: characteristics %#x, time %#x, version %u.%u reported, stored %#x %#x %u.%u", i, g.get_characteristics(), g.get_time_stamp(), g.get_major_version(), g.get_minor_version(), e.chars, e.stamp, e.major, e.minor);
    MC_REQUIRE(c, g.get_type_raw() == e.type && g.get_size_of_data() == e.size && g.get_rva_of_raw_data() == e.rva && g.get_pointer_to_raw_data() == e.ptr,
        "fields", "entry %zu: type %u size %#x at %#x/%#x reported, stored %u %#x %#x/%#x", i, g.get_type_raw(), g.get_size_of_data(), g.get_rva_of_raw_data(), g.get_pointer_to_raw_data(), e.type, e.size, e.rva, e.ptr);
    MC_REQUIRE(c, g.get_type() == (e.type < 12 ? types[e.type] : debug_info::debug_type_unknown), "type", "entry %zu: type %u is reported as %d", i, e.type, g.get_type());
    static const debug_info::advanced_info_type adv[] = { debug_info::advanced_info_none, debug_info::advanced_info_pdb_7_0, debug_info::advanced_info_pdb_2_0, debug_info::advanced_info_misc, debug_info::advanced_info_coff,
        debug_info::advanced_info_codeview_4_0, debug_info::advanced_info_codeview_5_0, debug_info::advanced_info_codeview };
    MC_REQUIRE(c, g.get_advanced_info_type() == adv[x.k], "form", "entry %zu (type %u): payload form %d is reported as %d", i, e.type, adv[x.k], g.get_advanced_info_type());
    int refused = 0;
    if(x.k != Info::cv70) { try { g.get_advanced_debug_info<pdb_7_0_info>(); } catch(const pe_exception&) { ++refused; } }
    if(x.k != Info::cv20) { try { g.get_advanced_debug_info<pdb_2_0_info>(); } catch(const pe_exception&) { ++refused; } }
    if(x.k != Info::misc) { try { g.get_advanced_debug_info<misc_debug_info>(); } catch(const pe_exception&) { ++refused; } }
    if(x.k != Info::coff) { try { g.get_advanced_debug_info<coff_debug_info>(); } catch(const pe_exception&) { ++refused; } }
    MC_REQUIRE(c, refused == (x.k >= Info::cv70 && x.k <= Info::coff ? 3 : 4), "other-form", "entry %zu hands out information of a form it does not hold", i);
    switch(x.k)
    {
    case Info::cv70:
    {
        const pdb_7_0_info a = g.get_advanced_debug_info<pdb_7_0_info>();
        const pe_win::guid gu = a.get_guid();
        MC_REQUIRE(c, a.get_age() == x.age && a.get_pdb_file_name() == x.name && Bytes(reinterpret_cast<const char*>(&gu), 16) == x.guid, "pdb7", "entry %zu: age %u name '%s', stored %u '%s'", i, a.get_age(), a.get_pdb_file_name().c_str(), x.age, x.name.c_str());
        break;
    }
    case Info::cv20:
    {
        const pdb_2_0_info a = g.get_advanced_debug_info<pdb_2_0_info>();
        MC_REQUIRE(c, a.get_age() == x.age && a.get_pdb_file_name() == x.name && a.get_signature() == x.sig, "pdb2", "entry %zu: age %u signature %#x name '%s', stored %u %#x '%s'", i, a.get_age(), a.get_signature(), a.get_pdb_file_name().c_str(), x.age, x.sig, x.name.c_str());
        break;
    }
    case Info::misc:
    {
        const misc_debug_info a = g.get_advanced_debug_info<misc_debug_info>();
        MC_REQUIRE(c, a.get_data_type() == x.dtype && a.is_exe_name() == (x.dtype == 1) && a.is_unicode() == x.uni, "misc", "entry %zu: data type %u, Unicode %d, stored %u %d", i, a.get_data_type(), a.is_unicode(), x.dtype, x.uni);
        std::vector<uint16_t> w(a.get_data_unicode().begin(), a.get_data_unicode().end());
        MC_REQUIRE(c, a.get_data_ansi() == x.name && w == x.wide, "misc-data", "entry %zu: %zu bytes and %zu characters decoded, %zu and %zu stored", i, a.get_data_ansi().size(), w.size(), x.name.size(), x.wide.size());
        break;
    }
    case Info::coff:
    {
        const coff_debug_info a = g.get_advanced_debug_info<coff_debug_info>();
        const uint32_t h[8] = { a.get_number_of_symbols(), a.get_lva_to_first_symbol(), a.get_number_of_line_numbers(), a.get_lva_to_first_line_number(), a.get_rva_to_first_byte_of_code(), a.get_rva_to_last_byte_of_code(), a.get_rva_to_first_byte_of_data(), a.get_rva_to_last_byte_of_data() };
        for(int k = 0; k < 8; ++k) MC_REQUIRE(c, h[k] == x.hdr[k], "coff-header", "entry %zu: header field %d is %#x, stored %#x", i, k, h[k], x.hdr[k]);
        const coff_debug_info::coff_symbols_list& l = a.get_symbols();
        MC_REQUIRE(c, l.size() == x.syms.size(), "coff-count", "entry %zu: %zu symbols reported, %zu stored", i, l.size(), x.syms.size());
        for(size_t k = 0; k < l.size(); ++k)
        {
            const Sym& y = x.syms[k];
            MC_REQUIRE(c, l[k].get_index() == y.index && l[k].get_storage_class() == y.cls && l[k].get_type() == y.type && l[k].is_file() == y.file && l[k].get_symbol() == y.name,
                "coff-symbol", "entry %zu symbol %zu: index %u class %u type %#x '%s', stored %u %u %#x '%s'", i, k, l[k].get_index(), l[k].get_storage_class(), l[k].get_type(), l[k].get_symbol().c_str(), y.index, y.cls, y.type, y.name.c_str());
            if(!y.file) MC_REQUIRE(c, l[k].get_section_number() == y.sec && l[k].get_rva() == y.rva, "coff-symbol", "entry %zu symbol %zu: section %u address %#x, stored %u %#x", i, k, l[k].get_section_number(), l[k].get_rva(), y.sec, y.rva);
        }
        break;
    }
    default: break;
    }
}
static void check(mc::Ctx& c, std::vector<Ent> es, const Layout& l, bool allow_refusal = false)
{
    Bytes f;
    build(es, l, &f);
    for(size_t i = 0; i < es.size(); ++i) c.desc("entry %zu: type %u, %u bytes, place %d; directory place %d%s%s", i, es[i].type, es[i].size, es[i].where, l.dirpos, l.pe64 ? ", PE+" : "", l.mem ? ", dump" : "");
    std::vector<Info> want;
    bool bad = false, may = allow_refusal;
    for(size_t i = 0; i < es.size(); ++i)
    {
        Info x;
        // a dump holds only what is mapped
        const bool reach = es[i].where == in_raw || es[i].where == in_hdr || (es[i].where == in_tail && !l.mem);
        if(reach && es[i].size) x = decode(es[i].type, es[i].data.substr(0, es[i].size));
        bad |= x.k == Info::bad; may |= x.may_refuse;
        want.push_back(x);
    }
    pe_base pe(open_pe(f, l.mem));
    c.step();
    debug_info_list got;
    try { got = get_debug_information(pe); }
    catch(const pe_exception& e)
    {
        MC_REQUIRE(c, bad || may, "refused", "a well-formed directory of %zu entries is refused: %s", es.size(), e.what());
        c.outcome(0x7fu);
        return;
    }
    MC_REQUIRE(c, got.size() == es.size(), "count", "%zu entries reported, %zu stored", got.size(), es.size());
    uint64_t h = 0;
    for(size_t i = 0; i < got.size(); ++i)
    {
        Info x = want[i];
        if(x.k == Info::bad || (x.may_refuse && got[i].get_advanced_info_type() == debug_info::advanced_info_none)) x = Info();
        compare(c, got[i], es[i], x, i);
        h = mc::mix(h, x.k * 100 + es[i].type);
    }
    // values, not references into the image: copies and assignments hold the same
    debug_info_list copy(got), other;
    other = copy;
    got.clear(); copy.clear();
    for(size_t i = 0; i < other.size(); ++i)
    {
        Info x = want[i];
        if(x.k == Info::bad || (x.may_refuse && other[i].get_advanced_info_type() == debug_info::advanced_info_none)) x = Info();
        compare(c, other[i], es[i], x, i);
    }
    c.outcome(mc::mix(h, mc::hash(f)));
}

static const uint32_t words[] = { 0, 1, 0x7fffffff, 0x80000000u, 0xffffffffu };
static const uint16_t halves[] = { 0, 1, 0x7fff, 0x8000, 0xffff };
static const char* const names[] = { "a.pdb", "", "x", "C:\\dir\\with blanks\\and \xc3\xa9.pdb", "\x01\xff" };
enum { ent_kinds = 17 };
static Ent entry(mc::Ctx& c, int k)
{
    Ent e;
    switch(k)
    {
    case 0: e = ent(2, cv70(c.pickdev(names, "name"), c.pickdev(words, "age"))); break;
    case 1: e = ent(2, cv20(c.pickdev(names, "name"), c.pickdev(words, "age"))); break;
    case 2: e = ent(2, cvother("NB09")); break;
    case 3: e = ent(2, cvother("NB11")); break;
    case 4: e = ent(2, cvother("NB05")); break;
    case 5: e = ent(2, cvother("NB08") + "more"); break;
    case 6: e = ent(4, misc(P("a.exe\0\0\0", 8), false, c.pickdev(words, "data type"))); break;
    case 7: e = ent(4, misc(wide("name\0\0", 6), true)); break;
    case 8: { std::vector<int> s; s.push_back(4); s.push_back(0); s.push_back(2); e = ent(1, coff(s, 0)); break; }
    case 9: e = ent(3, img::pattern(16, 8)); break;
    case 10: e = ent(2, cv70("t.pdb"), in_tail); break;
    case 11: e = ent(4, misc(P("tail\0", 5), false), in_tail); break;
    case 12: e = ent(2, cv70("h.pdb"), in_hdr); break;
    case 13: e = ent(14, Bytes(), nowhere); break;                     // an entry without data (ILTCG)
    case 14: e = ent(2, cv70("gone.pdb"), outside); break;             // data beyond the file
    case 15: e = ent(16, img::pattern(36, 9)); break;
    default: e = ent(2, Bytes()); break;                               // CodeView entry of no bytes
    }
    e.chars = c.pickdev(words, "characteristics");
    e.stamp = c.pickdev(words, "time"); if(!e.stamp) e.stamp = 0x50757757;
    e.major = c.pickdev(halves, "major"); e.minor = c.pickdev(halves, "minor");
    return e;
}
static void entries(mc::Ctx& c)
{
    Layout l = { c.flip("PE+"), false, 0, 0 };
    l.dirpos = c.choose(4, "directory at front / end of raw data / end of virtual data / headers");
    l.mem = c.flip("dump");
    l.slack = c.dev(3, "null entries");
    std::vector<Ent> es;
    const int n = 1 + c.choose(mc::tier_pick(2, 3), "entries");
    for(int i = 0; i < n; ++i) es.push_back(entry(c, c.choose(ent_kinds, "kind")));
    check(c, es, l);
}
static void alltypes(mc::Ctx& c)
{
    Layout l = { c.flip("PE+"), c.flip("dump"), c.choose(2, "directory"), 0 };
    static const uint32_t high[] = { 0x100, 0xffff, 0x10001, 0x10002, 0x10004, 0x80000002u, 0xffffffffu };
    const int t = c.choose(32 + 7, "type");
    const uint32_t type = t < 32 ? t : high[t - 32];
    std::vector<Ent> es;
    if(c.flip("leading entry")) es.push_back(ent(2, cv70("first")));
    // a payload that would decode under another type is not decoded under this one
    Bytes d;
    switch(c.choose(4, "payload")) { case 0: d = cv70("n"); break; case 1: d = misc("n", false); break; case 2: d = coff(std::vector<int>(1, 0), 0); break; default: d = img::pattern(40, 2); }
    Ent e = ent(type, d);
    if(c.flip("no data")) { e = ent(type, Bytes(), in_raw); }
    es.push_back(e);
    if(c.flip("trailing entry")) es.push_back(ent(4, misc("last", false)));
    // the garbage combinations may be refused; the ones of the right kind may not
    check(c, es, l);
}
static void symbols(mc::Ctx& c)
{
    Layout l = { false, false, 0, 0 };
    static const uint32_t gaps[] = { 0, 1, 4, 18, 36 };
    const uint32_t gap = c.pick(gaps, "gap in front of the symbols");
    std::vector<int> ks;
    const int n = c.choose(mc::tier_pick(5, 6), "symbols");
    for(int i = 0; i < n; ++i) ks.push_back(c.choose(sym_kinds, "symbol"));
    bool needs = false;
    for(size_t i = 0; i < ks.size(); ++i) needs |= ks[i] == 2 || ks[i] == 3;
    std::vector<Ent> es;
    es.push_back(ent(1, coff(ks, gap, needs || c.flip("string table"))));
    check(c, es, l);
}
static Bytes coff_of(const Bytes& recs, const Bytes& strs = strtab)
{
    Bytes b;
    ref::app32(b, recs.size() / 18); ref::app32(b, 32); for(int i = 0; i < 6; ++i) ref::app32(b, i * 0x1001);
    return b + recs + strs;
}
// Every storage class, section and type of a symbol between two others
static void classes(mc::Ctx& c)
{
    Layout l = { c.flip("PE+"), false, 0, 0 };
    static const int secs[] = { 0, 1, 2, -1, -2, 0x7fff, 0x100 };
    static const int types[] = { 0, 0x20, 0x2f, 0x30, 0x120, 0x10 };
    static const uint32_t values[] = { 0x1234, 0, 0xffffffffu };
    const int cls = c.choose(256, "class"), sec = c.pick(secs, "section"), type = c.pick(types, "type"), aux = c.choose(3, "auxiliary");
    Bytes r = symbol(1);
    r += sym(c.flip("long name") ? longname(4) : Bytes("short"), values[(cls + aux) % 3], static_cast<int16_t>(sec), type, cls, aux);
    for(int i = 0; i < aux; ++i) r += sym("FAKE", 0x77, 1, 0x20, 3, 0);
    r += symbol(0);
    std::vector<Ent> es;
    es.push_back(ent(1, coff_of(r)));
    check(c, es, l);
}
static Bytes text(int n, int seed) { Bytes b; for(int i = 0; i < n; ++i) b.push_back(static_cast<char>('a' + (i * 7 + seed + i / 26) % 26)); return b; }
// Large directories, symbol tables, string tables and names
static void sizes(mc::Ctx& c)
{
    Layout l = { c.flip("PE+"), false, 0, 0 };
    std::vector<int> ns;
    for(int i = 0; i < mc::tier_pick(66, 600); ++i) ns.push_back(i);
    static const int more[] = { 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097 };
    for(int x : more) ns.push_back(x);
    const int w = c.choose(9, "what");
    const int n = c.pick(ns, "size"), pat = c.choose(3, "pattern");
    std::vector<Ent> es;
    if(w == 0)
    {
        l.dirpos = c.choose(3, "directory"); l.mem = c.flip("dump");
        if(n > 600) return;
        for(int i = 0; i < n; ++i) { Ent e; switch((i * (pat + 1)) % 4) { case 0: e = ent(2, cv70(text(i % 9, i).c_str(), i)); break; case 1: e = ent(4, misc(text(i % 5, i) + Bytes(1, 0), false)); break; case 2: e = ent(14, Bytes(), nowhere); break; default: e = ent(2, cv20(text(i % 7, i).c_str(), i)); } e.stamp = 0x50000000 + i; es.push_back(e); }
        if(es.empty()) return;
    }
    else if(w == 1) es.push_back(ent(2, cv70(text(n, pat).c_str(), pat)));
    else if(w == 2) es.push_back(ent(2, cv20(text(n, pat).c_str(), pat)));
    else if(w == 3) es.push_back(ent(4, misc(text(n, pat) + Bytes(pat, 0), false)));
    else if(w == 4) { Bytes t = text(n & ~1, pat) + Bytes(2 * pat, 0); es.push_back(ent(4, misc(wide(t.data(), t.size()), true))); }
    else if(w == 5) { std::vector<int> ks; for(int i = 0; i < n; ++i) ks.push_back((i * (pat + 1) + i / 5) % sym_kinds); es.push_back(ent(1, coff(ks, pat))); }
    else if(w == 6) { const int k = std::min(n, 255); es.push_back(ent(1, coff_of(symbol(0) + sym(".file", 0, -2, 0, 103, k) + (pat == 1 ? text(k * 18, 1) : pat == 2 && k ? text(k * 18 - 17, 2) + Bytes(17, 0) : text(std::min(k * 18, 5), 3) + Bytes(std::max(0, k * 18 - 5), 0)) + symbol(1)))); }
    else if(w == 7) { Bytes st(4, 0); st += Bytes(pat, 'p') + Bytes(1, 0); const uint32_t at = st.size(); st += text(n, pat) + Bytes(1, 0) + "rest" + Bytes(1, 0); ref::put(st, 0, st.size(), 4); es.push_back(ent(1, coff_of(symbol(1) + sym(longname(at), 0x99, 1, 0x20, 2, 0) + symbol(0), st))); }
    else { const int k = std::min(n, 255); Bytes r = symbol(1) + sym("hasaux", 0x10, 1, 0x20, 2, k); for(int i = 0; i < k; ++i) r += sym("FAKE", 0x77, 1, 0x20, 3, i & 1); es.push_back(ent(1, coff_of(r + symbol(pat)))); }
    if(w) { es.push_back(ent(2, cv70("last", 9))); l.mem = pat == 2; }
    check(c, es, l);
}
// Past 16-bit numbers: names, symbols and offsets into the string table
static void longer(mc::Ctx& c)
{
    static const int ns[] = { 16384, 32767, 32768, 32769, 65534, 65535, 65536, 65537, 65538, 100000 };
    Layout l = { c.flip("PE+"), false, 0, 0 };
    const int w = c.choose(6, "what"), n = c.pick(ns, "size"), pat = c.choose(2, "pattern");
    std::vector<Ent> es;
    if(w == 0) es.push_back(ent(2, cv70(text(n, pat).c_str(), pat)));
    else if(w == 1) es.push_back(ent(2, cv20(text(n, pat).c_str(), pat)));
    else if(w == 2) es.push_back(ent(4, misc(text(n, pat) + Bytes(pat, 0), false)));
    else if(w == 3) { Bytes t = text(n & ~1, pat) + Bytes(2 * pat, 0); es.push_back(ent(4, misc(wide(t.data(), t.size()), true))); }
    else if(w == 4) { std::vector<int> ks; for(int i = 0; i < n; ++i) ks.push_back((i * (pat + 1) + i / 5) % sym_kinds); es.push_back(ent(1, coff(ks, pat))); }
    else { Bytes st(4, 0); st += pat ? Bytes(n, 'p') + Bytes(1, 0) : Bytes(1, 0); const uint32_t at = st.size(); st += pat ? Bytes("name") : text(n, 1); st += Bytes(1, 0) + "rest" + Bytes(1, 0); ref::put(st, 0, st.size(), 4); es.push_back(ent(1, coff_of(symbol(1) + sym(longname(at), 0x99, 1, 0x20, 2, 0) + symbol(0), st))); }
    es.push_back(ent(2, cv70("last", 9)));
    check(c, es, l);
}
// Every payload cut at every length, and every one or two bytes of it replaced
static Bytes payload(int k, uint32_t* type)
{
    *type = k < 5 ? 2 : k < 8 ? 4 : 1;
    std::vector<int> s;
    switch(k)
    {
    case 0: return cv70("ab");
    case 1: return cv20("ab");
    case 2: return cv70("") + "xy";
    case 3: return cvother("NB09");
    case 4: return cvother("NB11");
    case 5: return misc(P("data\0", 5), false);
    case 6: return misc(wide("uni\0", 4), true);
    case 7: return misc("", false) + "trailing";
    case 8: s.push_back(0); s.push_back(1); return coff(s, 0);
    case 9: s.push_back(4); s.push_back(2); return coff(s, 2);
    case 10: s.push_back(8); s.push_back(9); return coff(s, 0);
    default: s.push_back(2); s.push_back(10); s.push_back(7); return coff(s, 0);
    }
}
static void cut(mc::Ctx& c)
{
    Layout l = { c.flip("PE+"), c.flip("dump"), c.choose(2, "directory"), 0 };
    uint32_t type;
    Bytes d = payload(c.choose(12, "payload"), &type);
    Ent e = ent(type, d, c.flip("overlay") ? in_tail : in_raw);
    e.size = c.choose(static_cast<int>(d.size()) + 1, "bytes");
    std::vector<Ent> es;
    es.push_back(e);
    if(c.flip("another entry behind")) es.push_back(ent(2, cv70("z")));
    check(c, es, l);
}
static const uint8_t bytesv[] = { 0, 1, 2, 3, 0x0c, 0x11, 0x12, 0x1f, 0x20, 0x67, 0x7f, 0x80, 0xff };
static void corrupt(mc::Ctx& c)
{
    Layout l = { false, false, 0, 0 };
    uint32_t type;
    Bytes d = payload(c.choose(12, "payload"), &type);
    const int at = c.choose(static_cast<int>(d.size()), "byte");
    d[at] = static_cast<char>(c.pick(bytesv, "value"));
    if(d.size() - at > 1 && c.devs_left() > 0)
    {
        const int more = c.dev(static_cast<int>(d.size()) - at, "second byte");
        if(more) d[at + more] = static_cast<char>(c.pick(bytesv, "value"));
    }
    std::vector<Ent> es;
    es.push_back(ent(type, d));
    check(c, es, l);
}
static void fields(mc::Ctx& c)
{
    // every aligned field of a payload set to boundary values around the data length
    Layout l = { false, false, 1, 0 };
    uint32_t type;
    Bytes d = payload(c.choose(12, "payload"), &type);
    const uint32_t n = d.size();
    const uint32_t vals[] = { 0, 1, 2, 3, 11, 12, 13, 14, 31, 32, 33, n - 19, n - 18, n - 17, n - 12, n - 2, n - 1, n, n + 1, n + 11, n + 12, n + 13, 0x0e38e38d, 0x0e38e38e, 0x0e38e38f, 0x7fffffff, 0x80000000u, 0xfffffff4u, 0xffffffe0u, 0xffffffffu };
    const int at = 4 * c.choose(static_cast<int>(n / 4), "field");
    ref::put32(d, at, c.pick(vals, "value"));
    if(c.devs_left() > 0)
    {
        const int more = c.dev(static_cast<int>(n / 4), "second field");
        const uint32_t few[] = { 0, 12, n - 18, n, n + 1, 0x0e38e38e, 0x80000000u, 0xffffffffu };
        if(more) ref::put32(d, 4 * more, mc::thorough() ? c.pick(vals, "value") : c.pick(few, "value"));
    }
    std::vector<Ent> es;
    es.push_back(ent(type, d));
    check(c, es, l);
}
namespace mc
{
const Part parts[] = {
    { "entries", entries, 1, 1, "every directory of up to 2 (thorough 3) entries over 17 entry kinds x directory positions x file/dump; outcome: every entry compared" },
    { "types", alltypes, 0, 0, "every type number x payload kinds; outcome: entry compared" },
    { "symbols", symbols, 0, 0, "every COFF symbol table of up to 4 (thorough 5) symbols over 15 symbol kinds; outcome: every symbol compared" },
    { "classes", classes, 0, 0, "one symbol of every storage class x 7 sections x 6 types x auxiliary records; outcome: every symbol compared" },
    { "sizes", sizes, 0, 0, "directories, names, symbol tables, auxiliary records and string tables of every size up to 65 (thorough 599) and around powers of two to 4097" },
    { "long", longer, 0, 0, "names, symbol tables and string table offsets of 16384 to 100000 characters or entries" },
    { "cut", cut, 0, 0, "12 payloads cut at every length; outcome: decoded as stored or refused" },
    { "corrupt", corrupt, 0, 1, "12 payloads with every byte (thorough: every two bytes) replaced; outcome: decoded as stored or refused" },
    { "fields", fields, 1, 1, "12 payloads with every pair of aligned fields set to boundary values; outcome: decoded as stored or refused" },
};
const int part_count = sizeof(parts) / sizeof(parts[0]);
}
