// C36: one failing memory allocation surfaces as an exception, leaks nothing and leaves everything else intact.
#include "scen.h"
#include "dirs.h"
#include <vector>
using namespace u;
const char* const mc::check_id = "C36";

// ---------------------------------------------------------------- an image with everything in it
static Bytes bitmap_file() { Bytes b = "BM"; ref::app32(b, 14 + 40 + 24); ref::app32(b, 0); ref::app32(b, 54); ref::app32(b, 40); ref::app32(b, 2); ref::app32(b, 3); ref::app16(b, 1); ref::app16(b, 24); b.append(24, 0); return b + img::pattern(24, 70); }
static Bytes icon_file(bool cursor, int n, unsigned seed)
{
    Bytes b, d;
    ref::app16(b, 0); ref::app16(b, cursor ? 2 : 1); ref::app16(b, n);
    for(int i = 0; i < n; ++i)
    {
        Bytes pic; ref::app32(pic, 40); ref::app32(pic, 16 + i); ref::app32(pic, 32 + 2 * i); ref::app16(pic, 1); ref::app16(pic, 8); pic.append(24, 0); pic += img::pattern(11 + i, seed + i);
        b.push_back(16 + i); b.push_back(16 + i); b.push_back(0); b.push_back(0); ref::app16(b, 1); ref::app16(b, 8); ref::app32(b, pic.size()); ref::app32(b, 6 + 16 * n + d.size());
        d += pic;
    }
    return b + d;
}
static Bytes strings_bundle() { Bytes b; for(int i = 0; i < 16; ++i) { const int n = i % 3 ? 0 : i + 1; ref::app16(b, n); for(int k = 0; k < n; ++k) ref::app16(b, 'a' + k); } return b; }
static Bytes message_table()
{
    Bytes b; ref::app32(b, 2);
    ref::app32(b, 1); ref::app32(b, 2); ref::app32(b, 28); ref::app32(b, 9); ref::app32(b, 9); ref::app32(b, 28 + 8 + 12);
    ref::app16(b, 8); ref::app16(b, 0); b += Bytes("abc\0", 4); ref::app16(b, 12); ref::app16(b, 0); b += Bytes("defghij\0", 8);
    ref::app16(b, 12); ref::app16(b, 1); b += Bytes("u\0v\0w\0\0\0", 8);
    return b;
}
static void fill_tree(resource_directory& root)
{
    pe_resource_manager m(root);
    resource_bitmap_writer(m).add_bitmap(bitmap_file(), 1, 1033, 1252, 7);
    resource_bitmap_writer(m).add_bitmap(bitmap_file(), L"NAMED", 1049);
    resource_cursor_icon_writer w(m);
    w.add_icon(icon_file(false, 2, 71), L"MAIN", 1033); w.add_icon(icon_file(false, 1, 74), 5, 1033); w.add_cursor(icon_file(true, 2, 77), 6, 1033);
    m.add_resource(strings_bundle(), pe_resource_viewer::resource_string, 3, 1033);
    m.add_resource(message_table(), pe_resource_viewer::resource_message_table, 1, 1033);
    m.add_resource("raw data of a user type", L"USERTYPE", L"one", 1033);
    file_version_info fi; fi.set_file_version_ms(0x10002); fi.set_product_version_ls(0x30004);
    lang_string_values_map st; translation_values_map tr;
    version_info_editor e(st, tr);
    e.add_translation(version_info_editor::default_language_translation);
    e.set_company_name(L"A company with a name"); e.set_file_description(L"d"); e.set_property(L"A property of its own", L"and its value");
    resource_version_info_writer(m).set_version_info(fi, st, tr, 1033);
}
// Debug directory, .NET header, exception table in the first section; the rest is written by the library
static Bytes everything(bool pe64)
{
    ref::Spec s(pe64);
    Bytes t = img::pattern(0x600, 1);
    Bytes cv = "RSDS"; cv += img::pattern(16, 2); ref::app32(cv, 3); cv += Bytes("name of the symbol file.pdb\0", 28);
    Bytes mi; ref::app32(mi, 1); ref::app32(mi, 12 + 24); ref::app32(mi, 0); mi += Bytes("path of an executable.e\0", 24);
    Bytes co; ref::app32(co, 4); ref::app32(co, 32); co.append(24, 0);
    co += Bytes("fn\0\0\0\0\0\0", 8); ref::app32(co, 0x1000); ref::app16(co, 1); ref::app16(co, 0x20); ref::app16(co, 0x0002);
    co += Bytes("\0\0\0\0\4\0\0\0", 8); ref::app32(co, 0x1000); ref::app16(co, 1); ref::app16(co, 0); ref::app16(co, 0x0003);
    co += Bytes(".file\0\0\0", 8); ref::app32(co, 0); ref::app16(co, 0xfffe); ref::app16(co, 0); ref::app16(co, 0x0167); co += Bytes("name_of_a_source.c", 18);
    ref::app32(co, 4 + 35); co += Bytes("a symbol name in the string table.\0", 35);
    const Bytes* data[] = { &cv, &mi, &co };
    const uint32_t types[] = { 2, 4, 1 }, at[] = { 0x100, 0x180, 0x200 };
    for(int i = 0; i < 3; ++i)
    {
        Bytes e; ref::app32(e, 0); ref::app32(e, i); ref::app32(e, 0); ref::app32(e, types[i]); ref::app32(e, data[i]->size()); ref::app32(e, 0x1000 + at[i]); ref::app32(e, 0x400 + at[i]);
        ref::putstr(t, 0x40 + 28 * i, e); ref::putstr(t, at[i], *data[i]);
    }
    Bytes net; ref::app32(net, 72); for(int i = 0; i < 17; ++i) ref::app32(net, i * 0x1111); ref::putstr(t, 0x300, net);
    Bytes ex; ref::app32(ex, 0x1000); ref::app32(ex, 0x1010); ref::app32(ex, 0x1380); ref::app32(ex, 0x1010); ref::app32(ex, 0x1020); ref::app32(ex, 0x1388); ref::putstr(t, 0x360, ex);
    Bytes un; ref::app32(un, 0x01050201); ref::app32(un, 0x4204); ref::app32(un, 0x00000009); ref::putstr(t, 0x380, un);
    s.add(".text", t);
    s.add(".data", img::pattern(0x320, 4), 0x1800);
    s.dirs[6].rva = 0x1040; s.dirs[6].size = 84; s.dirs[14].rva = 0x1300; s.dirs[14].size = 72;
    if(pe64) { s.dirs[3].rva = 0x1360; s.dirs[3].size = 24; }
    const uint32_t k = 0x12345678;
    s.stub.clear(); ref::app32(s.stub, 0x536e6144 ^ k); for(int i = 0; i < 3; ++i) ref::app32(s.stub, k);
    for(int i = 0; i < 6; ++i) ref::app32(s.stub, (0x10000u * i + i + 1) ^ k);
    ref::app32(s.stub, 0x68636952); ref::app32(s.stub, k);
    pe_base pe(open_pe(s.build()));
    import_library l; l.set_name("library.dll");
    { imported_function f; f.set_name("a function with a name"); l.add_import(f); imported_function g; g.set_ordinal(7); l.add_import(g); }
    imported_functions_list il; il.push_back(l); l.set_name("another.dll"); il.push_back(l);
    rebuild_imports(pe, il, add_sec(pe, ".imp", Bytes(1, 'i')));
    export_info ei; ei.set_name("this.dll"); exported_functions_list el;
    for(int i = 0; i < 3; ++i) { exported_function f; f.set_ordinal(i + 1); f.set_rva(0x1000 + i); f.set_name(Bytes("an exported function ") + char('a' + i)); f.set_name_ordinal(i); if(i == 1) f.set_forwarded_name("some_library.some_function"); el.push_back(f); }
    rebuild_exports(pe, ei, el, add_sec(pe, ".exp", Bytes(1, 'e')));
    relocation_table_list rl; for(int i = 0; i < 2; ++i) { relocation_table r(0x1000 + 0x1000 * i); r.add_relocation(relocation_entry(0x500, pe64 ? 10 : 3)); r.add_relocation(relocation_entry(0x508 - 0x500 * i, pe64 ? 10 : 3)); rl.push_back(r); }
    rebuild_relocations(pe, rl, add_sec(pe, ".rel", Bytes(1, 'r')));
    tls_info ti; ti.set_raw_data_start_rva(0x2010); ti.set_raw_data(img::pattern(0x30, 8)); ti.recalc_raw_data_end_rva(); ti.set_index_rva(0x2004); ti.set_callbacks_rva(0x2050); ti.add_tls_callback(0x1010); ti.add_tls_callback(0x1020);
    rebuild_tls(pe, ti, add_sec(pe, ".tls", Bytes(1, 't')));
    image_config_info ci; ci.set_time_stamp(5); ci.add_lock_prefix_rva(0x1010); ci.add_lock_prefix_rva(0x1020); if(!pe64) { ci.add_se_handler_rva(0x1010); ci.add_se_handler_rva(0x1030); }
    rebuild_image_config(pe, ci, add_sec(pe, ".cfg", Bytes(1, 'c')));
    bound_import_module_list bl; { bound_import b("a bound library.dll", 9); b.add_module_ref(bound_import_ref("a forwarded one.dll", 10)); bl.push_back(b); bl.push_back(bound_import("b.dll", 11)); }
    rebuild_bound_imports(pe, bl, add_sec(pe, ".bnd", Bytes(1, 'b')));
    resource_directory root; fill_tree(root);
    rebuild_resources(pe, root, add_sec(pe, ".rsrc", Bytes(1, 's')));
    return write_pe(pe);
}
static const Bytes& everything_file(bool pe64)
{
    static Bytes b[2];
    if(b[pe64].empty()) b[pe64] = everything(pe64);
    return b[pe64];
}

// ---------------------------------------------------------------- one operation in a prepared world
struct World
{
    bool pe64;
    Bytes file;                             // the image under test
    std::unique_ptr<pe_base> a, b, x;       // under test, a copy of it made before, another image
    resource_directory tree, tree2;         // under test, a copy
    // prepared arguments
    imported_functions_list imp; exported_functions_list exp; export_info expi; relocation_table_list rel; tls_info tls; image_config_info cfg; bound_import_module_list bnd;
    lang_string_values_map st; translation_values_map tr; file_version_info fi;
    Bytes bmp, ico, cur, other;
    std::wstring w1, w2;
    section sec;
    debug_info_list dbg;
    // failure injection around the library call
    int64_t at; bool armed, failed; uint64_t calls, before;
    void arm() { armed = true; before = mc::alloc_calls(); mc::fail_alloc_at(at); }
    void disarm() { if(!armed) return; armed = false; failed = mc::alloc_failed(); mc::fail_alloc_at(-1); calls = mc::alloc_calls() - before; }
};
static void prepare(World& w, const Bytes& file, bool pe64, int pre = 0)
{
    w.pe64 = pe64; w.file = file; w.armed = w.failed = false; w.at = -1; w.calls = 0;
    w.a.reset(new pe_base(open_pe(file)));
    if(pre) scen::edit(*w.a, pre);
    w.b.reset(new pe_base(*w.a));
    w.x.reset(new pe_base(open_pe(img::base(img::k_overlay, !pe64).build())));
    w.bmp = bitmap_file(); w.ico = icon_file(false, 2, 80); w.cur = icon_file(true, 2, 84); w.other = img::pattern(300, 9);
    w.w1 = L"a name longer than the inline buffer"; w.w2 = L"NAMED";
    w.sec.set_name(".new"); w.sec.set_raw_data(img::pattern(0x234, 10));
}
// Arguments taken from an image with everything in it
static void prepare_all(World& w)
{
    w.tree = get_resources(*w.a); w.tree2 = w.tree;
    w.imp = get_imported_functions(*w.a); w.exp = get_exported_functions(*w.a, w.expi); w.rel = get_relocations(*w.a); w.tls = get_tls_info(*w.a); w.cfg = get_image_config(*w.a); w.bnd = get_bound_import_module_list(*w.a);
    w.dbg = get_debug_information(*w.a);
    pe_resource_viewer v(w.tree);
    w.fi = resource_version_info_reader(v).get_version_info(w.st, w.tr);
}
typedef Bytes (*Op)(World&);
struct OpDef { const char* name; int kind; Op f; };
enum { k_read, k_edit, k_tree, k_value };       // uses the image or the tree without changing it; edits w.a; edits w.tree; makes other values
static Bytes num(uint64_t n) { return std::to_string(n); }
static Bytes narrow(const std::wstring& w) { Bytes b; for(size_t i = 0; i < w.size(); ++i) { b += num(static_cast<unsigned>(w[i])); b += ','; } return b; }
static Bytes text(const debug_info_list& l)
{
    Bytes r;
    for(size_t i = 0; i < l.size(); ++i)
    {
        const debug_info& d = l[i];
        r += "[" + num(d.get_type_raw()) + " " + num(d.get_time_stamp()) + " " + num(d.get_advanced_info_type()) + ":";
        switch(d.get_advanced_info_type())
        {
        case debug_info::advanced_info_pdb_7_0: r += d.get_advanced_debug_info<pdb_7_0_info>().get_pdb_file_name(); break;
        case debug_info::advanced_info_misc: r += d.get_advanced_debug_info<misc_debug_info>().get_data_ansi(); break;
        case debug_info::advanced_info_coff: { const coff_debug_info ci = d.get_advanced_debug_info<coff_debug_info>(); for(size_t k = 0; k < ci.get_symbols().size(); ++k) r += "(" + (ci.get_symbols()[k].get_symbol()) + ")"; break; }
        default: break;
        }
        r += "]";
    }
    return r;
}
#define LIB(...) w.arm(); __VA_ARGS__; w.disarm()
static void rsrc_res(Bytes& r, const resource_data_info& d) { r += num(d.get_codepage()) + ":" + d.get_data(); }
static const OpDef ops[] =
{
    // ---- opening and copying
    { "open", k_value, [](World& w) { std::istringstream is(w.file); LIB(pe_base p(pe_factory::create_pe(is, false, false))); return fingerprint(p); } },
    { "open-debug", k_value, [](World& w) { std::istringstream is(w.file); LIB(pe_base p(pe_factory::create_pe(is))); return fingerprint(p); } },
    { "open-memory", k_value, [](World& w) { Bytes m(0x10000, 0); ref::putstr(m, 0, w.file.substr(0, 0x400)); std::istringstream is(m); LIB(pe_base p(pe_factory::create_pe(is, true))); return fingerprint(p); } },
    { "open-truncated", k_value, [](World& w) { std::istringstream is(w.file.substr(0, 0x180)); LIB(pe_base p(pe_factory::create_pe(is))); return fingerprint(p); } },
    { "new-image", k_value, [](World& w) { LIB(pe_base p(w.pe64 ? pe_base(pe_properties_64(), 0x2000, true) : pe_base(pe_properties_32(), 0x2000, true))); return fingerprint(p); } },
    { "copy", k_value, [](World& w) { LIB(pe_base p(*w.a)); return fingerprint(p); } },
    { "assign", k_value, [](World& w) { LIB(*w.x = *w.a); return fingerprint(*w.x); } },
    { "assign-self", k_edit, [](World& w) { pe_base& s = *w.a; LIB(*w.a = s); return fingerprint(*w.a); } },
    { "swap", k_edit, [](World& w) { LIB(std::swap(*w.a, *w.x)); return fingerprint(*w.a) + fingerprint(*w.x); } },
    { "vector", k_value, [](World& w) { std::vector<pe_base> v; LIB(v.push_back(*w.a); v.push_back(*w.b); v.erase(v.begin())); return fingerprint(v[0]); } },
    { "copy-section", k_value, [](World& w) { LIB(section s(w.a->get_image_sections()[0]); s = w.a->get_image_sections()[1]); return s.get_raw_data() + s.get_name(); } },
    { "copy-tree", k_value, [](World& w) { LIB(resource_directory d(w.tree); d = w.tree2); return dirs::text(d); } },
    { "assign-tree", k_value, [](World& w) { resource_directory d(w.tree); d.get_entry_list().erase(d.get_entry_list().begin()); LIB(d = w.tree); return dirs::text(d); } },
    { "copy-entries", k_value, [](World& w) { resource_directory_entry e; e.set_name(w.w1); e.add_data_entry(resource_data_entry(w.other, 3)); LIB(resource_directory_entry f(e); f = w.tree.get_entry_list()[0]; resource_directory_entry g; g = e; g.add_resource_directory(w.tree); e = g); return narrow(e.get_name()) + dirs::text(e.get_resource_directory()); } },
    { "copy-debug", k_value, [](World& w) { debug_info_list l(w.dbg); LIB(debug_info_list m(w.dbg); m[0] = m[1]; m[1] = m[2]; m[2] = l[0]; l = m); return text(l); } },
    // ---- editing
#define EDIT(n) { "edit-" #n, k_edit, [](World& w) { LIB(const bool ok = scen::edit(*w.a, n)); return num(ok) + fingerprint(*w.a); } }
    EDIT(1), EDIT(2), EDIT(3), EDIT(4), EDIT(5), EDIT(6), EDIT(7), EDIT(8), EDIT(9), EDIT(10), EDIT(11), EDIT(12), EDIT(13), EDIT(14), EDIT(15), EDIT(16), EDIT(17), EDIT(18), EDIT(19), EDIT(20), EDIT(21), EDIT(22), EDIT(23),
    { "add-section", k_edit, [](World& w) { LIB(section& s = w.a->add_section(w.sec)); return s.get_name() + fingerprint(*w.a); } },
    { "expand", k_edit, [](World& w) { section& s = w.a->get_image_sections().back(); LIB(const bool r = w.a->expand_section(s, s.get_virtual_address() + 0x10, 0x3000, pe_base::expand_section_raw)); return num(r) + fingerprint(*w.a); } },
    { "realign-section", k_edit, [](World& w) { LIB(w.a->realign_section(0); w.a->realign_all_sections()); return fingerprint(*w.a); } },
    { "rebase", k_edit, [](World& w) { LIB(rebase_image(*w.a, w.rel, w.pe64 ? 0x7fff00000000ull : 0x7f000000)); return fingerprint(*w.a); } },
    // ---- writing; an allocation of the stream itself is reported by the state of the stream
    { "write", k_edit, [](World& w) { std::ostringstream os; LIB(rebuild_pe(*w.a, os)); if(!os) throw std::bad_alloc(); return os.str(); } },
    { "write-strip", k_edit, [](World& w) { std::ostringstream os; LIB(rebuild_pe(*w.a, os, true, true, true)); if(!os) throw std::bad_alloc(); return os.str(); } },
    { "write-keep", k_edit, [](World& w) { std::ostringstream os; LIB(rebuild_pe(*w.a, os, false, false, false)); if(!os) throw std::bad_alloc(); return os.str(); } },
    // ---- reading
    { "read-sections", k_read, [](World& w) { const pe_base& p = *w.a; LIB(const section_list l = p.get_image_sections(); const uint32_t n = p.section_data_length_from_rva(0x1010, 0x1010, section_data_virtual, true); const Bytes v = p.get_image_sections()[1].get_virtual_data(p.get_section_alignment())); return num(l.size()) + num(n) + v; } },
    { "read-virtual", k_read, [](World& w) { const pe_base& p = *w.a; const uint32_t va = p.get_image_sections()[1].get_virtual_address(); LIB(const char* v = p.section_data_from_rva(va + 0x700, section_data_virtual)); return num(static_cast<unsigned char>(*v)); } },
    { "read-missing", k_read, [](World& w) { const pe_base& p = *w.a; LIB(const char* v = p.section_data_from_rva(0xf0000000u)); return num(*v); } },
    { "read-rich", k_read, [](World& w) { LIB(const rich_data_list l = get_rich_data(*w.a)); Bytes r; for(size_t i = 0; i < l.size(); ++i) r += num(l[i].get_number()) + "/" + num(l[i].get_times()) + " "; return r; } },
    { "read-debug", k_read, [](World& w) { LIB(const debug_info_list l = get_debug_information(*w.a)); return text(l); } },
    { "read-dotnet", k_read, [](World& w) { LIB(const basic_dotnet_info d(get_basic_dotnet_info(*w.a))); return num(d.get_flags()); } },
    { "read-exceptions", k_read, [](World& w) { LIB(const exception_entry_list l = get_exception_directory_data(*w.a)); return num(l.size()); } },
#define READ(n) { "read-dir-" #n, k_read, [](World& w) { LIB(const Bytes t = dirs::decode(*w.a, n, true)); return t; } }
    READ(0), READ(1), READ(2), READ(3), READ(4), READ(5), READ(6),
    { "checksum", k_read, [](World& w) { std::istringstream is(w.file); LIB(const uint32_t s = calculate_checksum(is)); return num(s); } },
    { "entropy", k_read, [](World& w) { std::istringstream is(w.file); LIB(double e = entropy_calculator::calculate_entropy(is); e += entropy_calculator::calculate_entropy(*w.a)); return num(static_cast<uint64_t>(e * 1e9)); } },
    // ---- rebuilding
#define SEC section& s = add_sec(*w.a, ".reb", Bytes(1, 'x'))
    { "write-imports", k_edit, [](World& w) { SEC; LIB(rebuild_imports(*w.a, w.imp, s)); return fingerprint(*w.a); } },
    { "write-imports-save", k_edit, [](World& w) { SEC; import_rebuilder_settings t; t.save_iat_and_original_iat_rvas(true, true); t.fill_missing_original_iats(true); LIB(rebuild_imports(*w.a, w.imp, s, t)); return fingerprint(*w.a); } },
    { "write-exports", k_edit, [](World& w) { SEC; LIB(rebuild_exports(*w.a, w.expi, w.exp, s)); return fingerprint(*w.a); } },
    { "write-relocations", k_edit, [](World& w) { SEC; LIB(rebuild_relocations(*w.a, w.rel, s)); return fingerprint(*w.a); } },
    { "write-tls", k_edit, [](World& w) { SEC; w.tls.set_callbacks_rva(s.get_virtual_address() + 0x100); LIB(rebuild_tls(*w.a, w.tls, s)); return fingerprint(*w.a); } },
    { "write-tls-virtual", k_edit, [](World& w) { SEC; w.tls.set_raw_data_start_rva(s.get_virtual_address() + 0x200); w.tls.recalc_raw_data_end_rva(); LIB(rebuild_tls(*w.a, w.tls, s, 0, false, true, tls_data_expand_virtual)); return fingerprint(*w.a); } },
    { "write-config", k_edit, [](World& w) { SEC; LIB(rebuild_image_config(*w.a, w.cfg, s)); return fingerprint(*w.a); } },
    { "write-bound", k_edit, [](World& w) { SEC; LIB(rebuild_bound_imports(*w.a, w.bnd, s)); return fingerprint(*w.a); } },
    { "write-resources", k_edit, [](World& w) { SEC; LIB(rebuild_resources(*w.a, w.tree, s)); return fingerprint(*w.a); } },
    { "write-detached", k_edit, [](World& w) { section s(w.sec); LIB(rebuild_bound_imports(*w.a, w.bnd, s)); return fingerprint(*w.a); } },
    // ---- resources: reading
    { "view", k_read, [](World& w)
        {
            LIB(pe_resource_viewer v(w.tree); const pe_resource_viewer::resource_type_list t = v.list_resource_types(); const pe_resource_viewer::resource_name_list n = v.list_resource_names(pe_resource_viewer::resource_bitmap);
                const pe_resource_viewer::resource_id_list i = v.list_resource_ids(pe_resource_viewer::resource_icon); const pe_resource_viewer::resource_language_list l = v.list_resource_languages(pe_resource_viewer::resource_bitmap, w.w2);
                const uint32_t k = v.get_language_count(L"USERTYPE", L"one"); const resource_data_info d = v.get_resource_data_by_name(1033, L"USERTYPE", L"one"); const bool e = v.resource_exists(L"a type which is not there at all"));
            Bytes r; for(size_t q = 0; q < t.size(); ++q) r += num(t[q]) + " ";
            for(size_t q = 0; q < n.size(); ++q) r += narrow(n[q]) + " ";
            for(size_t q = 0; q < i.size(); ++q) r += num(i[q]) + " ";
            for(size_t q = 0; q < l.size(); ++q) r += num(l[q]) + " ";
            rsrc_res(r, d);
            return r + num(k) + num(e);
        } },
    { "view-missing", k_read, [](World& w) { LIB(pe_resource_viewer v(w.tree); const resource_data_info d = v.get_resource_data_by_name(1033, L"USERTYPE", w.w1)); return d.get_data(); } },
    { "read-bitmap", k_read, [](World& w) { LIB(pe_resource_viewer v(w.tree); const resource_bitmap_reader r(v); const Bytes b = r.get_bitmap_by_name(w.w2); const Bytes d = r.get_bitmap_by_id_lang(1033, 1)); return b + d; } },
    { "read-icon", k_read, [](World& w) { LIB(pe_resource_viewer v(w.tree); const resource_cursor_icon_reader r(v); const Bytes b = r.get_icon_by_name(L"MAIN"); const Bytes d = r.get_icon_by_id_lang(1033, 5); const Bytes e = r.get_single_icon_by_id_lang(1033, 2)); return b + d + e; } },
    { "read-cursor", k_read, [](World& w) { LIB(pe_resource_viewer v(w.tree); const resource_cursor_icon_reader r(v); const Bytes b = r.get_cursor_by_id(6); const Bytes d = r.get_single_cursor_by_id(1)); return b + d; } },
    { "read-strings", k_read, [](World& w) { LIB(pe_resource_viewer v(w.tree); const resource_string_table_reader r(v); const resource_string_list l = r.get_string_table_by_id(3); const std::wstring s = r.get_string_by_id_lang(1033, 32 + 15)); Bytes t = narrow(s); for(resource_string_list::const_iterator i = l.begin(); i != l.end(); ++i) t += num(i->first) + narrow(i->second); return t; } },
    { "read-messages", k_read, [](World& w) { LIB(pe_resource_viewer v(w.tree); const resource_message_list_reader r(v); const resource_message_list l = r.get_message_table_by_id(1)); Bytes t; for(resource_message_list::const_iterator i = l.begin(); i != l.end(); ++i) t += num(i->first) + (i->second.is_unicode() ? narrow(i->second.get_unicode_string()) : i->second.get_ansi_string()); return t; } },
    { "read-version", k_read, [](World& w)
        {
            lang_string_values_map s; translation_values_map tr;
            LIB(pe_resource_viewer v(w.tree); const resource_version_info_reader r(v); const file_version_info f = r.get_version_info_by_lang(s, tr, 1033); const std::wstring p = f.get_file_version_string<wchar_t>(); const version_info_viewer q(s, tr); const std::wstring n = q.get_company_name(), m = q.get_property(L"A property of its own"));
            Bytes t = narrow(p) + narrow(n) + narrow(m) + num(tr.size()); for(lang_string_values_map::const_iterator i = s.begin(); i != s.end(); ++i) { t += narrow(i->first); for(string_values_map::const_iterator k = i->second.begin(); k != i->second.end(); ++k) t += narrow(k->first) + "=" + narrow(k->second); }
            return t;
        } },
    // ---- resources: editing
    { "add-resource", k_tree, [](World& w) { LIB(pe_resource_manager m(w.tree); m.add_resource(w.other, L"a new resource type", w.w1, 1033, 5, 6); m.add_resource(w.other, pe_resource_viewer::resource_bitmap, w.w2, 1033)); return dirs::text(w.tree); } },
    { "remove-resource", k_tree, [](World& w) { LIB(pe_resource_manager m(w.tree); const bool a = m.remove_resource(L"USERTYPE", L"one", 1033); const bool b = m.remove_resource(pe_resource_viewer::resource_icon, 1); const bool d = m.remove_resource_type(pe_resource_viewer::resource_string)); return num(a + b + d) + dirs::text(w.tree); } },
    { "add-bitmap", k_tree, [](World& w) { LIB(pe_resource_manager m(w.tree); resource_bitmap_writer(m).add_bitmap(w.bmp, w.w1, 1033, 1, 2); resource_bitmap_writer(m).remove_bitmap(1, 1033)); return dirs::text(w.tree); } },
    { "add-icon", k_tree, [](World& w) { LIB(pe_resource_manager m(w.tree); resource_cursor_icon_writer(m).add_icon(w.ico, L"MAIN", 1033, resource_cursor_icon_writer::icon_place_free_ids, 1, 2)); return dirs::text(w.tree); } },
    { "add-icon-new", k_tree, [](World& w) { LIB(pe_resource_manager m(w.tree); resource_cursor_icon_writer(m).add_icon(w.ico, 77, 1049)); return dirs::text(w.tree); } },
    { "add-cursor", k_tree, [](World& w) { LIB(pe_resource_manager m(w.tree); resource_cursor_icon_writer(m).add_cursor(w.cur, 6, 1033)); return dirs::text(w.tree); } },
    { "remove-icon", k_tree, [](World& w) { LIB(pe_resource_manager m(w.tree); resource_cursor_icon_writer(m).remove_icon_group(L"MAIN", 1033); resource_cursor_icon_writer(m).remove_cursor_group(6, 1033)); return dirs::text(w.tree); } },
    { "write-version", k_tree, [](World& w) { LIB(pe_resource_manager m(w.tree); resource_version_info_writer(m).set_version_info(w.fi, w.st, w.tr, 1049, 1, 2); resource_version_info_writer(m).remove_version_info(1033)); return dirs::text(w.tree); } },
    { "edit-version", k_value, [](World& w)
        {
            lang_string_values_map s(w.st); translation_values_map tr(w.tr);
            LIB(version_info_editor e(s, tr); e.set_product_name(w.w1); e.add_translation(1033, 1252); e.set_property(w.w1, w.w1, L"040904E4"); e.remove_translation(L"041904b0"));
            Bytes t; for(lang_string_values_map::const_iterator i = s.begin(); i != s.end(); ++i) { t += narrow(i->first); for(string_values_map::const_iterator k = i->second.begin(); k != i->second.end(); ++k) t += narrow(k->first) + "=" + narrow(k->second); }
            return t + num(tr.size());
        } },
};
enum { op_count = sizeof(ops) / sizeof(*ops) };
struct Ref { Bytes result; uint64_t calls; bool throws; };
// Runs the operation; a pe_exception or bad_alloc becomes "throws"
static void call(mc::Ctx& c, World& w, int o, int64_t at, Ref& r)
{
    w.at = at; w.failed = false;
    r.throws = false;
    try { r.result = ops[o].f(w); }
    catch(const pe_exception& e) { w.disarm(); r.throws = true; r.result = "pe_exception " + num(e.get_id()); }
    catch(const std::bad_alloc&) { w.disarm(); r.throws = true; r.result = "bad_alloc"; }
    catch(const std::exception& e) { w.disarm(); c.fail("exception", "%s threw \"%s\", which is neither the library's exception nor bad_alloc", ops[o].name, e.what()); }
    r.calls = w.calls;
}
static Bytes headers_only(const pe_base& pe) { return fingerprint(pe); }
static void world_intact(mc::Ctx& c, World& w, int o, const Bytes& fa, const Bytes& fb, const Bytes& fx, const Bytes& ta, const Bytes& tb, bool full)
{
    const int k = ops[o].kind;
    MC_REQUIRE(c, headers_only(*w.b) == fb, "other-image", "%s changed an image it was not applied to", ops[o].name);
    if(full) MC_REQUIRE(c, dirs::text(w.tree2) == tb, "other-tree", "%s changed a resource tree it was not applied to", ops[o].name);
    if(k != k_edit) MC_REQUIRE(c, headers_only(*w.a) == fa, "image-changed", "%s changed the image it only reads", ops[o].name);
    if(full && k != k_tree) MC_REQUIRE(c, dirs::text(w.tree) == ta, "tree-changed", "%s changed the tree it only reads", ops[o].name);
    if(strcmp(ops[o].name, "swap") && strcmp(ops[o].name, "assign")) MC_REQUIRE(c, headers_only(*w.x) == fx, "other-image", "%s changed another image", ops[o].name);
}
static void run(mc::Ctx& c, const Bytes& file, bool pe64, bool full, int o, uint64_t key, int pre = 0)
{
    // how often it allocates, and its result when nothing fails
    static std::map<uint64_t, Ref>& cache = *new std::map<uint64_t, Ref>;
    std::map<uint64_t, Ref>::iterator i = cache.find(key);
    if(i == cache.end())
    {
        World w; prepare(w, file, pe64, pre); if(full) prepare_all(w);
        headers_only(*w.a); headers_only(*w.b); headers_only(*w.x);     // puts sections into one defined state
        Ref r; call(c, w, o, -1, r);
        i = cache.insert(std::make_pair(key, r)).first;
    }
    const Ref& want = i->second;
    World w; prepare(w, file, pe64, pre); if(full) prepare_all(w);
    const Bytes fa = headers_only(*w.a), fb = headers_only(*w.b), fx = headers_only(*w.x), ta = full ? dirs::text(w.tree) : Bytes(), tb = full ? dirs::text(w.tree2) : Bytes();
    MC_REQUIRE(c, want.calls < 60000, "harness", "too many allocations");
    const int at = c.choose(static_cast<int>(want.calls) + 1, "failing allocation");
    c.desc(" %s of allocation %d/%llu", ops[o].name, at, (unsigned long long)want.calls);
    c.step();
    Ref got; call(c, w, o, at, got);
    if(at < static_cast<int>(want.calls))
    {
        MC_REQUIRE(c, w.failed, "harness", "allocation %d did not happen", at);
        if(!got.throws)
        {
            bool fine = got.result == want.result;
            if(!fine && !strncmp(ops[o].name, "open", 4))
            {
                // the optional debug data may be missing
                std::istringstream is(w.file);
                fine = strcmp(ops[o].name, "open") && got.result.size() < want.result.size() && got.result == want.result.substr(0, got.result.size());
            }
            MC_REQUIRE(c, fine, "swallowed", "%s reported success with another result although an allocation failed", ops[o].name);
        }
        else MC_REQUIRE(c, got.result == "bad_alloc" || got.result.compare(0, 12, "pe_exception") == 0, "exception", "%s", got.result.c_str());
    }
    else MC_REQUIRE(c, got.throws == want.throws && got.result == want.result, "not-deterministic", "%s gave another result", ops[o].name);
    world_intact(c, w, o, fa, fb, fx, ta, tb, full);
    // what failed can be done again, on the same objects when they were only read, on a copy assigned over the failed one otherwise
    if(at < static_cast<int>(want.calls))
    {
        if(ops[o].kind == k_edit)
        {
            // whatever it holds now, it can be used without harm
            try { pe_base t(*w.a); write_pe(t); } catch(const pe_exception&) {} catch(const std::bad_alloc&) {}
            for(int d = 0; d < dirs::count; ++d) try { dirs::decode(*w.a, d, true); } catch(const pe_exception&) {} catch(const std::bad_alloc&) {}
            try { get_debug_information(*w.a); } catch(const pe_exception&) {} catch(const std::bad_alloc&) {}
            try { add_sec(*w.a, "more", Bytes(5, 'm')); w.a->realign_file(0x200); w.a->strip_data_directories(0); } catch(const pe_exception&) {} catch(const std::bad_alloc&) {}
            try { write_pe(*w.a); } catch(const pe_exception&) {} catch(const std::bad_alloc&) {}
            *w.a = *w.b;
        }
        if(ops[o].kind == k_tree)
        {
            dirs::text(w.tree);
            try { pe_base t(*w.b); resource_directory d(w.tree); rebuild_resources(t, d, add_sec(t, "r", Bytes(1, 'r'))); get_resources(t); } catch(const pe_exception&) {}
            try { pe_resource_manager m(w.tree); m.add_resource(w.other, pe_resource_viewer::resource_icon, 500, 1033); m.remove_resource_type(pe_resource_viewer::resource_version); resource_cursor_icon_writer(m).remove_icon_group(L"MAIN", 1033); } catch(const pe_exception&) {}
            w.tree = w.tree2;
        }
        if(!strcmp(ops[o].name, "swap") || !strcmp(ops[o].name, "assign")) { try { write_pe(*w.x); } catch(const pe_exception&) {} w.x.reset(new pe_base(open_pe(img::base(img::k_overlay, !pe64).build()))); }
        if(full && ops[o].kind == k_edit) prepare_all(w);
        Ref again; call(c, w, o, -1, again);
        MC_REQUIRE(c, again.throws == want.throws && again.result == want.result, "retry", "%s gives another result after it failed once", ops[o].name);
        world_intact(c, w, o, fa, fb, fx, ta, tb, full);
        std::unique_ptr<pe_base> never(new pe_base(open_pe(file)));
        if(pre) scen::edit(*never, pre);
        Bytes f1, f2;
        try { f1 = write_pe(*w.b); } catch(const pe_exception& e) { f1 = num(e.get_id()); }
        try { f2 = write_pe(*never); } catch(const pe_exception& e) { f2 = num(e.get_id()); }
        MC_REQUIRE(c, f1 == f2, "unusable", "another image writes another file after %s failed", ops[o].name);
    }
    c.outcome(mc::mix(mc::hash(got.result), key));
    c.trace();
}
static void everything_ops(mc::Ctx& c)
{
    const bool pe64 = c.flip("flavour");
    const int o = c.choose(op_count, "operation");
    c.desc("%s", pe64 ? "PE+" : "PE");
    run(c, everything_file(pe64), pe64, true, o, o * 2 + pe64);
}
// Opening, copying, editing and writing every kind of small image
static void plain_ops(mc::Ctx& c)
{
    const bool pe64 = c.flip("flavour");
    const int kind = c.choose(scen::sources, "source");
    std::vector<int> some;
    for(int i = 0; i < op_count; ++i) if(!strncmp(ops[i].name, "open", 4) || !strcmp(ops[i].name, "copy") || !strcmp(ops[i].name, "assign") || !strncmp(ops[i].name, "edit-", 5) || !strcmp(ops[i].name, "swap") || !strncmp(ops[i].name, "write", 5) || !strcmp(ops[i].name, "add-section") || !strcmp(ops[i].name, "checksum"))
        if(strncmp(ops[i].name, "write-", 6) || !strcmp(ops[i].name, "write-strip") || !strcmp(ops[i].name, "write-keep")) if(strcmp(ops[i].name, "edit-version")) some.push_back(i);
    const int o = c.pick(some, "operation"), pre = c.choose(scen::edits, "earlier edit");
    c.desc("%s source %d %s", pe64 ? "PE+" : "PE", kind, scen::edit_name(pre));
    Bytes file;
    std::unique_ptr<pe_base> p = scen::source(kind, pe64, &file);
    if(file.empty()) file = write_pe(*p);
    run(c, file, pe64, false, o, 1000000 + ((o * 64 + kind) * 64ull + pre) * 2 + pe64, pre);
}

// ---------------------------------------------------------------- an object a failed operation was applied to
template<class F> static void failing(mc::Ctx& c, uint64_t key, const char* what, F f, bool& threw)
{
    // f is given a fresh object and the failing allocation
    static std::map<uint64_t, uint64_t>& calls = *new std::map<uint64_t, uint64_t>;
    World w; w.armed = w.failed = false; w.at = -1; w.calls = 0;
    if(!calls.count(key)) { bool t = false; f(w, true, t); calls[key] = w.calls; }
    MC_REQUIRE(c, calls[key] < 60000, "harness", "too many allocations");
    const int n = static_cast<int>(calls[key]), at = c.choose(n + 1, "failing allocation");
    c.desc(" %s of allocation %d/%d", what, at, n);
    c.step();
    w.at = at; w.failed = false; w.armed = false; threw = false;
    f(w, false, threw);
    if(at < n) { MC_REQUIRE(c, w.failed, "harness", "allocation %d did not happen", at); MC_REQUIRE(c, threw, "swallowed", "%s reported success although an allocation failed", what); }
    else MC_REQUIRE(c, !threw, "not-deterministic", "%s failed although no allocation did", what);
    c.outcome(mc::mix(key, threw));
    c.trace();
}
#define TRY(...) try { w.arm(); __VA_ARGS__; w.disarm(); } catch(const std::bad_alloc&) { w.disarm(); threw = true; } catch(const pe_exception&) { w.disarm(); threw = true; }
static const debug_info debug_state(int k)
{
    pe_win::image_debug_directory d; memset(&d, 0, sizeof(d)); d.Type = k; d.TimeDateStamp = 100 + k;
    debug_info i(d);
    switch(k)
    {
    case 1: { Bytes b(20, 1); ref::app32(b, 3); b += Bytes("name of the first symbol file.pdb", 40 - 6); i.set_advanced_debug_info(pdb_7_0_info(reinterpret_cast<const pe_win::CV_INFO_PDB70*>(b.c_str()))); break; }
    case 2: { Bytes b(12, 1); ref::app32(b, 4); b += Bytes("name of the second symbol file.pdb", 35); i.set_advanced_debug_info(pdb_2_0_info(reinterpret_cast<const pe_win::CV_INFO_PDB20*>(b.c_str()))); break; }
    case 3: { Bytes b; ref::app32(b, 1); ref::app32(b, 12 + 42); ref::app32(b, 0); b += Bytes("a path of an executable, written at length", 43) + Bytes(16, 0); i.set_advanced_debug_info(misc_debug_info(reinterpret_cast<const pe_win::image_debug_misc*>(b.c_str()))); break; }
    case 4: { Bytes b(32, 0); coff_debug_info v(reinterpret_cast<const pe_win::image_coff_symbols_header*>(b.c_str())); coff_debug_info::coff_symbol y; y.set_symbol_name("a symbol with a long name"); v.add_symbol(y); y.set_file_name("a source file with a long name"); v.add_symbol(y); i.set_advanced_debug_info(v); break; }
    case 5: i.set_advanced_info_type(debug_info::advanced_info_codeview_5_0); break;
    }
    return i;
}
static Bytes debug_text(const debug_info& d)
{
    // every detail; asking for another kind of detail is refused
    Bytes r = num(d.get_advanced_info_type()) + ":";
    int n = 0;
    try { const pdb_7_0_info p = d.get_advanced_debug_info<pdb_7_0_info>(); r += num(p.get_age()) + p.get_pdb_file_name(); ++n; } catch(const pe_exception&) {}
    try { const pdb_2_0_info p = d.get_advanced_debug_info<pdb_2_0_info>(); r += num(p.get_age()) + p.get_pdb_file_name(); ++n; } catch(const pe_exception&) {}
    try { const misc_debug_info p = d.get_advanced_debug_info<misc_debug_info>(); r += num(p.is_unicode()) + (p.is_unicode() ? Bytes() : p.get_data_ansi()); ++n; } catch(const pe_exception&) {}
    try { const coff_debug_info p = d.get_advanced_debug_info<coff_debug_info>(); for(size_t k = 0; k < p.get_symbols().size(); ++k) r += p.get_symbols()[k].get_symbol() + ";"; ++n; } catch(const pe_exception&) {}
    return r + num(n);
}
static void objects_debug(mc::Ctx& c)
{
    const int from = c.choose(6, "state"), op = c.choose(17, "operation");
    c.desc("debug_info state %d", from);
    const debug_info other(debug_state(op % 6));
    const bool set = op >= 6 && op < 12;
    if(set && (op == 6 || op == 11)) return;
    bool threw;
    failing(c, from * 32 + op, op < 6 ? "assignment" : set ? "setting details" : op == 12 ? "assignment to itself" : op == 13 ? "swap" : op == 14 ? "vector" : op == 15 ? "copy" : "setting the kind", [&](World& w, bool, bool& threw)
    {
        debug_info d(debug_state(from)), e(debug_state(op % 6));
        std::vector<debug_info> v;
        const Bytes old = debug_text(d), want = debug_text(e);
        switch(op)
        {
        case 7: { const pdb_7_0_info p = e.get_advanced_debug_info<pdb_7_0_info>(); TRY(d.set_advanced_debug_info(p)); break; }
        case 8: { const pdb_2_0_info p = e.get_advanced_debug_info<pdb_2_0_info>(); TRY(d.set_advanced_debug_info(p)); break; }
        case 9: { const misc_debug_info p = e.get_advanced_debug_info<misc_debug_info>(); TRY(d.set_advanced_debug_info(p)); break; }
        case 10: { const coff_debug_info p = e.get_advanced_debug_info<coff_debug_info>(); TRY(d.set_advanced_debug_info(p)); break; }
        case 12: { const debug_info& s = d; TRY(d = s); break; }
        case 13: TRY(std::swap(d, e)); break;
        case 14: TRY(v.push_back(d); v.push_back(e); v.insert(v.begin(), d); v.erase(v.begin() + 1)); for(size_t i = 0; i < v.size(); ++i) debug_text(v[i]); break;
        case 15: TRY(debug_info f(d); e = f); break;
        case 16: TRY(d.set_advanced_info_type(debug_info::advanced_info_codeview_4_0)); break;
        default: TRY(d = e);
        }
        // whatever it holds now, it can be read, copied, set and assigned
        const Bytes now = debug_text(d);
        if(op != 13 && op != 16) MC_REQUIRE(c, now == old || now == want || (threw && now == "0:0"), "object", "holds \"%s\" after \"%s\" became \"%s\"", now.c_str(), old.c_str(), want.c_str());
        if(op < 12 && !threw) MC_REQUIRE(c, now == want, "object", "holds \"%s\", not \"%s\"", now.c_str(), want.c_str());
        if(op < 13 || op == 16) MC_REQUIRE(c, debug_text(e) == want, "other-object", "the other object changed");
        debug_info g(d), h(e);
        MC_REQUIRE(c, debug_text(g) == now, "object", "a copy holds something else");
        d = h; d = g; e = d;
        d = debug_state(4); e.set_advanced_info_type(debug_info::advanced_info_codeview);
        MC_REQUIRE(c, debug_text(d) == debug_text(debug_state(4)), "object", "cannot be assigned any more");
    }, threw);
}
static resource_directory_entry entry_state(int k)
{
    resource_directory_entry e;
    if(k & 1) e.set_name(L"a name longer than any inline buffer"); else e.set_id(77);
    if(k / 2 == 1) e.add_data_entry(resource_data_entry("data longer than any inline buffer", 3));
    if(k / 2 == 2)
    {
        resource_directory d; resource_directory_entry f; f.set_name(L"an inner name, longer as well"); f.add_data_entry(resource_data_entry("inner data, longer than the buffer", 4)); d.add_resource_directory_entry(f);
        f.set_id(5); f.add_resource_directory(d); d.add_resource_directory_entry(f); e.add_resource_directory(d);
    }
    return e;
}
static Bytes entry_text(const resource_directory_entry& e)
{
    Bytes r = e.is_named() ? narrow(e.get_name()) : num(e.get_id());
    int n = 0;
    try { const resource_data_entry& d = e.get_data_entry(); r += "=" + num(d.get_codepage()) + d.get_data(); ++n; } catch(const pe_exception&) {}
    try { const resource_directory& d = e.get_resource_directory(); r += "{" + dirs::text(d) + "}"; ++n; } catch(const pe_exception&) {}
    return r + num(n);
}
static void objects_entry(mc::Ctx& c)
{
    const int from = c.choose(6, "state"), arg = c.choose(6, "argument"), op = c.choose(8, "operation");
    static const char* const names[] = { "assignment", "adding data", "adding a directory", "naming", "adding its own data", "adding its own directory", "assigning an entry inside", "filling a directory" };
    if((op == 1 && arg / 2 != 1) || (op == 2 && arg / 2 != 2) || (op == 3 && !(arg & 1)) || (op >= 4 && op <= 6 && arg) || (op == 4 && from / 2 != 1) || ((op == 5 || op == 6) && from / 2 != 2)) return;
    c.desc("entry state %d argument %d", from, arg);
    bool threw;
    failing(c, 100000 + (from * 8 + arg) * 8 + op, names[op], [&](World& w, bool, bool& threw)
    {
        resource_directory_entry d(entry_state(from)), e(entry_state(arg));
        resource_directory many;
        const Bytes old = entry_text(d), other = entry_text(e);
        Bytes want;
        switch(op)
        {
        case 0: want = other; TRY(d = e); break;
        case 1: { const resource_data_entry& x = e.get_data_entry(); TRY(d.add_data_entry(x)); break; }
        case 2: { const resource_directory& x = e.get_resource_directory(); TRY(d.add_resource_directory(x)); break; }
        case 3: { const std::wstring& x = e.get_name(); TRY(d.set_name(x)); break; }
        case 4: want = old; { const resource_data_entry& x = d.get_data_entry(); TRY(d.add_data_entry(x)); } break;
        case 5: want = old; { const resource_directory& x = d.get_resource_directory(); TRY(d.add_resource_directory(x)); } break;
        case 6: { const resource_directory_entry& x = d.get_resource_directory().get_entry_list()[1]; want = entry_text(x); TRY(d = x); } break;
        case 7: TRY(many.add_resource_directory_entry(d); many.add_resource_directory_entry(e); many.add_resource_directory_entry(d)); want = old; break;
        }
        const Bytes now = entry_text(d);
        if(!threw && !want.empty()) MC_REQUIRE(c, now == want, "object", "holds \"%s\", not \"%s\"", now.c_str(), want.c_str());
        MC_REQUIRE(c, entry_text(e) == other, "other-object", "the other entry changed");
        if(op == 7)
        {
            // as many entries as the directory counts, each of them whole
            const resource_directory::entry_list& l = many.get_entry_list();
            if(!threw) MC_REQUIRE(c, many.get_number_of_named_entries() + many.get_number_of_id_entries() == l.size(), "object", "a directory of %zu entries counts %u and %u", l.size(), many.get_number_of_named_entries(), many.get_number_of_id_entries());
            for(size_t i = 0; i < l.size(); ++i) MC_REQUIRE(c, entry_text(l[i]) == (i == 1 ? other : old), "object", "entry %zu is damaged", i);
        }
        resource_directory_entry g(d); e = g; d.add_data_entry(resource_data_entry("x", 1)); d = e;
        MC_REQUIRE(c, entry_text(d) == now, "object", "cannot be assigned any more");
    }, threw);
}

namespace mc
{
const Part parts[] =
{
    { "everything", everything_ops, 0, 0, "every allocation of every operation (opening, copying, 23 edits, writing, all readers, all rebuilds, all resource readers and writers) on an image with every directory, both flavours" },
    { "plain", plain_ops, 0, 0, "every allocation of opening, copying, assigning, editing and writing on every kind of small image, each after none or any one of 23 edits, both flavours" },
    { "objects-debug", objects_debug, 0, 0, "every allocation of 15 operations on a debug entry in each of 6 states, with each of 6 arguments; the object is used afterwards" },
    { "objects-entry", objects_entry, 0, 0, "every allocation of 8 operations on a resource directory entry in each of 6 states, with each of 6 arguments; the object is used afterwards" },
};
const int part_count = sizeof(parts) / sizeof(*parts);
}
