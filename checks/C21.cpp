// C21: directories rebuilt in any order and at any place of one image coexist.
#include "reb.h"
#include "dirs.h"
using namespace u;
const char* const mc::check_id = "C21";

using namespace dirs;
enum { dirs_n = dirs::count };

// ---- the image: .text, an old section .old, .tls (room for thread data), .room (directories between other sections), then whatever is added
struct World
{
    std::unique_ptr<pe_base> pe;
    bool pe64;
    size_t room, shared, tls;               // sections; shared is the last one as long as nothing was added
    uint32_t room_at, shared_at;            // the next free offset in each
    Bytes want[dirs_n], full[dirs_n];           // what is written, and what was read right after writing
    bool has[dirs_n];
};
enum { room_size = 0x1800, tls_size = 0x400 };
static void start(World& w, bool pe64)
{
    w.pe64 = pe64;
    ref::Spec s(pe64);
    s.add(".text", img::pattern(0x200, 1));
    s.add(".old", img::pattern(0x3ff, 2));
    w.pe.reset(new pe_base(open_pe(s.build(), false, false)));
    add_sec(*w.pe, ".tls", img::pattern(tls_size, 3)); w.tls = 2;
    add_sec(*w.pe, ".room", Bytes(room_size, '\xcd')); w.room = 3;
    add_sec(*w.pe, ".shared", Bytes(1, '\xce')); w.shared = 4;
    w.room_at = 0; w.shared_at = 1;
    for(int i = 0; i < dirs_n; ++i) w.has[i] = false;
}
enum { p_own, p_shared, p_room, places, p_slot = places };  // p_slot: a place of its own in the last section, in front of or behind the others
// Writes directory d. Returns false when the place cannot be used now.
static bool build(mc::Ctx& c, World& w, int d, int variant, int place, bool strip, uint32_t gap, uint32_t serial)
{
    pe_base& pe = *w.pe;
    if((place == p_shared || place == p_slot) && w.shared + 1 != pe.get_image_sections().size()) return false;
    c.desc(" %s.%d>%s%s", dname[d], variant, place == p_own ? "own" : place == p_shared ? "shared" : place == p_slot ? "slot" : "room", strip ? "" : "-");
    if(place == p_own) add_sec(pe, std::string(".n") + char('0' + pe.get_image_sections().size() % 10), Bytes(1, '\xdd'));
    const size_t at = place == p_own ? pe.get_image_sections().size() - 1 : place == p_room ? w.room : w.shared;
    const uint32_t off = place == p_own ? 0 : place == p_slot ? gap + 0x400 + 0x400 * d : gap + (place == p_shared ? w.shared_at : w.room_at);
    section& s = pe.get_image_sections()[at];
    const reb::Snap before = reb::snap(pe);
    std::vector<std::pair<uint32_t, uint32_t> > ent;
    for(uint32_t i = 0; i < pe.get_number_of_rvas_and_sizes(); ++i) ent.push_back(std::make_pair(pe.get_directory_rva(i), pe.get_directory_size(i)));
    reb::Ranges allowed;
    image_directory dir;
    c.step();
    switch(d)
    {
    case d_imp:
    {
        imported_functions_list l;
        for(int i = 0; i <= variant; ++i)
        {
            import_library b; b.set_name(i ? "second.dll" : "a.dll"); b.set_timestamp(serial * 16 + i);
            for(int k = 0; k < 1 + 2 * variant; ++k)
            {
                imported_function f;
                if(k == 1) f.set_ordinal(static_cast<uint16_t>(serial + 7)); else { f.set_name(k ? "Some.Longer" : "fn"); f.set_hint(static_cast<uint16_t>(serial)); }
                b.add_import(f);
            }
            l.push_back(b);
        }
        import_rebuilder_settings st; st.set_offset_from_section_start(off); st.enable_auto_strip_last_section(strip);
        dir = rebuild_imports(pe, l, s, st);
        w.want[d] = text(l, false);
        break;
    }
    case d_exp:
    {
        export_info e; e.set_name("lib.dll"); e.set_timestamp(serial); e.set_characteristics(3); e.set_major_version(4); e.set_minor_version(5); e.set_ordinal_base(1);
        exported_functions_list l;
        for(int i = 0; i < 1 + 2 * variant; ++i)
        {
            exported_function f; f.set_ordinal(static_cast<uint16_t>(i ? i * 2 : 1));
            if(i == 2) f.set_forwarded_name("other.fn"); else f.set_rva(0x1000 + 16 * i + serial);
            if(i != 1) { f.set_name(i ? "Second" : "First"); f.set_name_ordinal(static_cast<uint16_t>(i)); }
            l.push_back(f);
        }
        dir = rebuild_exports(pe, e, l, s, off, true, strip);
        w.want[d] = text(l, e, false);
        break;
    }
    case d_rel:
    {
        relocation_table_list l;
        for(int i = 0; i <= variant; ++i)
        {
            relocation_table t(0x1000 + 0x1000 * i);
            for(uint32_t k = 0; k < 1 + 2u * variant; ++k) t.add_relocation(relocation_entry(static_cast<uint16_t>(serial * 4 + 0x20 * k), w.pe64 ? 10 : 3));
            l.push_back(t);
        }
        dir = rebuild_relocations(pe, l, s, off, true, strip);
        w.want[d] = text(l);
        break;
    }
    case d_tls:
    {
        tls_info t;
        const uint32_t base = pe.get_image_sections()[w.tls].get_virtual_address() + 0x80 * (serial % 4);
        Bytes data = img::pattern(0x21, 40 + serial); if(variant) data += Bytes(7, 0);
        t.set_raw_data_start_rva(base + 8); t.set_raw_data(data); t.recalc_raw_data_end_rva();
        t.set_callbacks_rva(base + 0x40); t.set_index_rva(base + 4); t.set_characteristics(0x00300000); t.set_size_of_zero_fill(serial);
        for(int i = 0; i <= variant; ++i) t.add_tls_callback(0x1000 + 16 * i + serial);
        dir = rebuild_tls(pe, t, s, off, true, true, tls_data_expand_raw, true, strip);
        w.want[d] = text(t);
        allowed.push_back(std::make_pair(base, base + 0x80));
        break;
    }
    case d_cfg:
    {
        image_config_info t; t.set_time_stamp(serial); t.set_major_version(1); t.set_minor_version(2); t.set_global_flags_clear(3); t.set_critical_section_default_timeout(5); t.set_decommit_free_block_threshold(6); t.set_process_heap_flags(0x11);
        t.set_service_pack_version(9); t.set_security_cookie_va(pe.get_image_base_64() + 0x1010);
        if(variant) { t.add_lock_prefix_rva(0x1004); t.add_lock_prefix_rva(0x1008 + serial); if(!w.pe64) { t.add_se_handler_rva(0x1020); t.add_se_handler_rva(0x1030 + serial); } }
        dir = rebuild_image_config(pe, t, s, off, true, true, true, strip);
        w.want[d] = text(t, false);
        break;
    }
    case d_res:
    {
        resource_directory root, names, langs; root.set_timestamp(serial);
        Bytes data = img::pattern(5 + variant * 40, 60 + serial); if(variant) data += Bytes(9, 0);
        resource_directory_entry e; e.set_id(0x409); e.add_data_entry(resource_data_entry(data, 1252)); langs.add_resource_directory_entry(e);
        if(variant) { resource_directory_entry n; n.set_name(L"NAME"); n.add_resource_directory(langs); names.add_resource_directory_entry(n); }
        { resource_directory_entry n; n.set_id(1 + serial); n.add_resource_directory(langs); names.add_resource_directory_entry(n); }
        resource_directory_entry t; t.set_id(10); t.add_resource_directory(names); root.add_resource_directory_entry(t);
        dir = rebuild_resources(pe, root, s, off, true, strip);
        w.want[d] = text(root);
        break;
    }
    case d_bnd:
    {
        bound_import_module_list l;
        for(int i = 0; i <= variant; ++i)
        {
            bound_import m(i ? "second.dll" : "first.dll", serial * 3 + i);
            if(variant && !i) m.add_module_ref(bound_import_ref("ref.dll", serial));
            l.push_back(m);
        }
        dir = rebuild_bound_imports(pe, l, s, off, true, strip);
        w.want[d] = text(l);
        break;
    }
    }
    uint32_t end = dir.get_rva() + dir.get_size() - s.get_virtual_address();
    if(d == d_cfg)
    {
        // its tables are outside the directory itself; the caller learns from it where they are
        const image_config_info t = get_image_config(pe);
        const uint32_t pw = w.pe64 ? 8 : 4;
        if(t.get_lock_prefix_table_va()) end = std::max(end, static_cast<uint32_t>(pe.va_to_rva(t.get_lock_prefix_table_va()) + pw * (1 + t.get_lock_prefix_rvas().size()) - s.get_virtual_address()));
        if(t.get_se_handler_table_va()) end = std::max(end, static_cast<uint32_t>(pe.va_to_rva(t.get_se_handler_table_va()) + 4 * t.get_se_handler_rvas().size() - s.get_virtual_address()));
    }
    reb::untouched(c, pe, before, at, off, end, allowed);
    reb::inside_section(c, pe, at, dir);
    if(place == p_shared) w.shared_at = end;
    if(place == p_slot) w.shared_at = std::max(w.shared_at, end);
    if(place == p_room) w.room_at = end;
    for(uint32_t i = 0; i < pe.get_number_of_rvas_and_sizes(); ++i)
    {
        std::pair<uint32_t, uint32_t> e = ent[i];
        if(static_cast<int>(i) == entry[d]) e = std::make_pair(dir.get_rva(), dir.get_size());
        if(d == d_imp && i == 12) continue;
        MC_REQUIRE(c, e.first == pe.get_directory_rva(i) && e.second == pe.get_directory_size(i), "directory-entry", "writing %s: data directory %u is %#x+%#x, should be %#x+%#x", dname[d], i, pe.get_directory_rva(i), pe.get_directory_size(i), e.first, e.second);
    }
    w.has[d] = true;
    w.full[d].clear();
    return true;
}
// Every directory written so far is readable with its content, at the same place
static void check(mc::Ctx& c, World& w, const pe_base& pe, const char* where)
{
    for(int d = 0; d < dirs_n; ++d)
    {
        if(!w.has[d]) { MC_REQUIRE(c, !pe.directory_exists(entry[d]), "appeared", "%s: %s were never written but exist", where, dname[d]); continue; }
        Bytes plain, full;
        try { plain = decode(pe, d, false); full = decode(pe, d, true); }
        catch(const pe_exception& e) { c.fail("unreadable", "%s: %s cannot be read: %s", where, dname[d], e.what()); }
        MC_REQUIRE(c, plain == w.want[d], "content", "%s: %s are \"%s\", should be \"%s\"", where, dname[d], plain.c_str(), w.want[d].c_str());
        if(w.full[d].empty()) w.full[d] = full;
        MC_REQUIRE(c, full == w.full[d], "moved", "%s: %s are \"%s\", were \"%s\"", where, dname[d], full.c_str(), w.full[d].c_str());
    }
}
static void finish(mc::Ctx& c, World& w)
{
    const reb::Snap s = reb::snap(*w.pe);
    const Bytes f = write_pe(*w.pe);
    check(c, w, *w.pe, "after writing");
    for(int mem = 0; mem < 2; ++mem)
    {
        pe_base q(open_pe(f, false, mem));
        check(c, w, q, "reopened");
        const section_list& l = q.get_image_sections();
        MC_REQUIRE(c, l.size() == s.raw.size(), "sections", "%zu sections after reopening, should be %zu", l.size(), s.raw.size());
        for(size_t i = 0; i < l.size(); ++i) MC_REQUIRE(c, l[i].get_virtual_address() == s.va[i] && same_content(l[i].get_raw_data(), s.raw[i]), "section-data", "section %zu differs after reopening", i);
    }
    uint64_t h = 0;
    for(int d = 0; d < dirs_n; ++d) h = mc::mix(h, mc::hash(w.full[d]));
    c.outcome(h);
    c.trace();
}
// All orders of all seven, with every way of placing them alike, in turns, or all but one
static void orders(mc::Ctx& c)
{
    World w;
    start(w, c.flip("flavour"));
    const int mode = c.choose(6, "placement"), variant = c.choose(mc::tier_pick(1, 2), "content") ^ (mode & 1);
    int left[dirs_n];
    for(int i = 0; i < dirs_n; ++i) left[i] = i;
    if(mode == 5 && w.pe64) { section& s = w.pe->get_image_sections()[w.shared]; s.get_raw_data().assign(0x2400, '\xce'); w.pe->recalculate_section_sizes(s, false); }
    c.desc("%s mode %d:", w.pe64 ? "PE+" : "PE", mode);
    for(int i = 0; i < dirs_n; ++i)
    {
        const int k = c.choose(dirs_n - i, "next directory"), d = left[k];
        for(int j = k; j + 1 < dirs_n - i; ++j) left[j] = left[j + 1];
        const int place = mode == 5 ? p_slot : mode == 0 ? p_own : mode == 1 ? p_shared : mode == 2 ? p_room : mode == 3 ? (i & 1 ? p_own : p_room) : (i < 3 ? p_shared : i & 1 ? p_room : p_own);
        build(c, w, d, variant, place, mode != 1 || i + 1 == dirs_n, mode == 2 ? i % 4 : 0, i + 1);
        if(i + 1 < dirs_n) check(c, w, *w.pe, "in memory");
    }
    check(c, w, *w.pe, "in memory");
    finish(c, w);
}
// Every history of a few rebuilds: which directory, what content, where to, with or without shortening; the same directory may be written again
static void history(mc::Ctx& c, int depth, int ways)
{
    World w;
    start(w, c.flip("flavour"));
    c.desc("%s:", w.pe64 ? "PE+" : "PE");
    for(int i = 0; i < depth; ++i)
    {
        const int d = c.choose(dirs_n, "directory"), place = c.choose(ways, "place");
        const int variant = i >= 3 ? 1 : c.choose(2, "content");
        static const uint32_t gaps[] = { 0, 1, 0x1e };
        const bool strip = c.dev(2, "strip") ? i % 2 != 0 : i % 2 == 0;
        if(!build(c, w, d, variant, place, strip, c.pickdev(gaps, "gap"), i + 1)) return;
        check(c, w, *w.pe, "in memory");
    }
    finish(c, w);
}
static void histories(mc::Ctx& c) { history(c, mc::tier_pick(3, 4), places); }
static void pairs(mc::Ctx& c) { history(c, 2, places + 1); }

namespace mc
{
const Part parts[] =
{
    { "orders", orders, 0, 0, "all 5040 orders of the seven rebuilds x 6 placements (each its own section, one growing last section, one section in the middle, two mixtures, places in the last section in front of and behind each other) x both flavours, checked after every step, after writing and after reopening" },
    { "histories", histories, 0, 0, "every history of 3 (thorough 4) rebuilds over 7 directories x 3 places x 2 contents, repetition included" },
    { "pairs", pairs, 4, 4, "every pair of rebuilds, with every shortening option and gap in front" },
};
const int part_count = sizeof(parts) / sizeof(*parts);
}
