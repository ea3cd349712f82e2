// C22: Reading damaged directories is memory-safe and always ends.
#include "util.h"
#include "lay.h"
using namespace u;
using namespace lay;
const char* const mc::check_id = "C22";

// ---------------------------------------------------------------- well-formed contents to damage
enum { d_imports, d_exports, d_relocs, d_tls, d_config, d_bound, d_exceptions, d_debug, d_dotnet, dir_count };
static const int dirno[] = { 1, 0, 5, 9, 10, 11, 3, 6, 14 };
static const char* const dname[] = { "imports", "exports", "relocations", "TLS", "load configuration", "bound imports", "exceptions", "debug", ".NET" };
static bool make(mc::Ctx& c, Lay& l, int d)
{
    const unsigned w = l.pe64 ? 8 : 4;
    l.plain = true;
    switch(d)
    {
    case d_imports:
    {
        const uint64_t flag = l.pe64 ? 0x8000000000000000ULL : 0x80000000u;
        Piece desc(4), n0, h0(2), i0(w), a0(w), n1, a1(w);
        n0.str("a.dll"); h0.v(3, 2); h0.str("f"); n1.str("b");
        const int id = 0; l.add(desc);
        i0.ref_(3, w); i0.v(flag | 7, w); i0.v(0, w);
        a0.ref_(3, w); a0.v(flag | 7, w); a0.v(0, w);
        a1.v(flag | 9, w); a1.ref_(3, w); a1.v(0, w);
        l.add(i0); l.add(a0); l.add(h0); l.add(n0); l.add(a1); l.add(n1);
        desc.ref_(1); desc.v(0, 4); desc.v(0, 4); desc.ref_(4); desc.ref_(2);
        desc.v(0, 4); desc.v(5, 4); desc.v(0, 4); desc.ref_(6); desc.ref_(5);
        desc.b += Bytes(20, 0);
        l.p[0] = desc;
        return l.build(c, 1, 60, id);
    }
    case d_exports:
    {
        Piece h(4), f(4), n(4), o(2), s0, s1, dl;
        h.v(0, 4); h.v(1, 4); h.v(2, 2); h.v(3, 2); h.ref_(6); h.v(1, 4); h.v(3, 4); h.v(2, 4); h.ref_(1); h.ref_(2); h.ref_(3); h.str("K.x");
        f.v(code_rva, 4); f.v(0, 4); f.ref_(0, 4, 40);
        n.ref_(4); n.ref_(5); o.v(0, 2); o.v(2, 2);
        s0.str("aa"); s1.str("b"); dl.str("d");
        l.add(h); l.add(f); l.add(n); l.add(o); l.add(s0); l.add(s1); l.add(dl);
        return l.build(c, 0, 44, 0);
    }
    case d_relocs:
    {
        Piece p(4);
        p.v(0x1000, 4); p.v(12, 4); p.v(0x3004, 2); p.v(0, 2);
        p.v(0x2000, 4); p.v(10, 4); p.v(0xa010, 2);
        p.v(0x2000, 4); p.v(8, 4);
        l.add(p);
        return l.build(c, 5, p.b.size(), 0);
    }
    case d_tls:
    {
        Piece t(w), r, cb(w), ix(4);
        t.ref_(1, w, 0, true); t.ref_(1, w, 5, true); t.ref_(3, w, 0, true); t.ref_(2, w, 0, true); t.v(7, 4); t.v(1, 4);
        r.b = "abcde"; cb.ref_(-1, w, code_rva, true); cb.ref_(-1, w, code_rva + 1, true); cb.v(0, w); ix.v(0, 4);
        l.add(t); l.add(r); l.add(cb); l.add(ix);
        return l.build(c, 9, t.b.size(), 0);
    }
    case d_config:
    {
        Piece t(w), se(4), lp(w);
        t.v(l.pe64 ? 112 : 72, 4); t.b += Bytes(20, 1);
        t.b += Bytes(2 * w, 2);
        t.ref_(2, w, 0, true);
        t.b += Bytes(2 * w, 3); t.b += Bytes(l.pe64 ? 12 : 8, 4); t.b += Bytes(4, 5); t.b += Bytes(2 * w, 6);
        t.ref_(1, w, 0, true); t.v(2, w);
        se.v(0x1000, 4); se.v(0x1010, 4); lp.ref_(-1, w, code_rva, true); lp.v(0, w);
        l.add(t); l.add(se); l.add(lp);
        return l.build(c, 10, t.b.size(), 0);
    }
    case d_bound:
    {
        Piece p(4);
        p.v(1, 4); p.v(32, 2); p.v(1, 2); p.v(2, 4); p.v(34, 2); p.v(0, 2);
        p.v(3, 4); p.v(34, 2); p.v(0, 2); p.b += Bytes(8, 0);
        p.str("a"); p.str("bc");
        l.add(p);
        return l.build(c, 11, p.b.size(), 0);
    }
    case d_exceptions:
    {
        Piece d0(4), u(4), u2(4);
        d0.v(0x1000, 4); d0.v(0x1010, 4); d0.ref_(1); d0.v(0x1010, 4); d0.v(0x1020, 4); d0.ref_(2);
        u.v(0x01050201, 4); u.v(0x4204, 4); u2.v(0x00000009, 4);
        l.add(d0); l.add(u); l.add(u2);
        return l.build(c, 3, 24, 0);
    }
    case d_debug:
    {
        Piece t(4), cv, mi(4), co(4);
        cv.b = "RSDS"; cv.b += Bytes(20, '\1'); cv.str("n");
        mi.v(1, 4); mi.v(17, 4); mi.v(0, 4); mi.str("data");
        co.v(2, 4); co.v(32, 4); co.b += Bytes(24, 0);
        co.b += Bytes("fn\0\0\0\0\0\0", 8); co.v(0x1000, 4); co.v(1, 2); co.v(0x20, 2); co.v(2, 2);
        co.b += Bytes("\0\0\0\0\4\0\0\0", 8); co.v(0x1000, 4); co.v(1, 2); co.v(0, 2); co.v(3, 2);
        co.v(8, 4); co.str("long");
        // file offsets are put in below
        const Bytes* data[] = { &cv.b, &mi.b, &co.b };
        const uint32_t types[] = { 2, 4, 1 };
        for(int i = 0; i < 3; ++i) { t.v(0, 4); t.v(i, 4); t.v(0, 4); t.v(types[i], 4); t.v(data[i]->size(), 4); t.ref_(i + 1); t.v(0, 4); }
        l.add(t); l.add(cv); l.add(mi); l.add(co);
        if(!l.build(c, 6, t.b.size(), 0)) return false;
        for(int i = 0; i < 3; ++i) { const size_t o = l.fileoff + 28 * i + 24; if(o + 4 <= l.file.size() && (l.cut < 0 || 28 * i + 28 <= l.cut)) ref::put32(l.file, o, l.fileoff + (l.at[i + 1] - l.base)); }
        return true;
    }
    default:
    {
        Piece t(4);
        t.v(72, 4); for(int i = 0; i < 17; ++i) t.v(i * 0x1111, 4);
        l.add(t);
        return l.build(c, 14, 72, 0);
    }
    }
}

// ---------------------------------------------------------------- everything reported is found in the image
static Bytes cstr(const ref::Mem& m, uint64_t a) { return m.cstr(a); }
static void confirm(mc::Ctx& c, const pe_base& pe, int d)
{
    const ref::Mem m = mem_of(pe);
    const bool p64 = pe.get_pe_type() == pe_type_64;
    const unsigned w = p64 ? 8 : 4;
    const uint64_t ib = pe.get_image_base_64();
    const uint32_t dir = pe.directory_exists(dirno[d]) ? pe.get_directory_rva(dirno[d]) : 0;
    uint64_t h = 0;
    size_t n = 0;
    try
    {
        switch(d)
        {
        case d_imports:
        {
            const imported_functions_list l = get_imported_functions(pe);
            for(size_t i = 0; i < l.size(); ++i)
            {
                const uint64_t at = dir + 20ULL * i;
                const uint32_t ilt = m.r32(at), iat = m.r32(at + 16);
                MC_REQUIRE(c, l[i].get_timestamp() == m.r32(at + 4) && l[i].get_rva_to_original_iat() == ilt && l[i].get_rva_to_iat() == iat, "import-descriptor", "library %zu: fields differ from the image", i);
                MC_REQUIRE(c, m.has(at, 20), "import-outside", "library %zu: its descriptor lies partly outside the image", i);
                MC_REQUIRE(c, l[i].get_name() == cstr(m, m.r32(at + 12)), "import-name", "library %zu: name differs from the image", i);
                const import_library::imported_list& f = l[i].get_imported_functions();
                for(size_t k = 0; k < f.size(); ++k)
                {
                    const uint64_t a = m.rd(iat + static_cast<uint64_t>(w) * k, w), v = ilt ? m.rd(ilt + static_cast<uint64_t>(w) * k, w) : a;
                    MC_REQUIRE(c, f[k].get_iat_va() == a, "import-iat", "library %zu function %zu: address %#llx, the image holds %#llx", i, k, static_cast<unsigned long long>(f[k].get_iat_va()), static_cast<unsigned long long>(a));
                    if(v >> (8 * w - 1)) MC_REQUIRE(c, !f[k].has_name() && f[k].get_ordinal() == (v & 0xffff), "import-ordinal", "library %zu function %zu: ordinal %u", i, k, f[k].get_ordinal());
                    else MC_REQUIRE(c, v >> 32 == 0 && f[k].get_hint() == m.r16(v) && f[k].get_name() == cstr(m, v + 2), "import-function", "library %zu function %zu: name or hint differ from the image", i, k);
                    ++n;
                }
                ++n;
            }
            break;
        }
        case d_exports:
        {
            export_info info;
            const exported_functions_list l = get_exported_functions(pe, info), l2 = get_exported_functions(pe);
            if(!dir) { MC_REQUIRE(c, l.empty(), "absent", "functions of no directory"); break; }
            MC_REQUIRE(c, m.has(dir, 40), "export-outside", "the directory lies partly outside the image");
            MC_REQUIRE(c, info.get_characteristics() == m.r32(dir) && info.get_timestamp() == m.r32(dir + 4) && info.get_major_version() == m.r16(dir + 8) && info.get_minor_version() == m.r16(dir + 10) && info.get_name() == cstr(m, m.r32(dir + 12)) && info.get_ordinal_base() == m.r32(dir + 16)
                && info.get_number_of_functions() == m.r32(dir + 20) && info.get_number_of_names() == m.r32(dir + 24) && info.get_rva_of_functions() == m.r32(dir + 28) && info.get_rva_of_names() == m.r32(dir + 32) && info.get_rva_of_name_ordinals() == m.r32(dir + 36), "export-info", "export information differs from the image");
            MC_REQUIRE(c, l.size() == l2.size(), "export-overload", "%zu functions with information, %zu without", l.size(), l2.size());
            const uint64_t fs = m.r32(dir + 28), ns = m.r32(dir + 32), os = m.r32(dir + 36), nn = m.r32(dir + 24);
            for(size_t i = 0; i < l.size(); ++i)
            {
                const uint64_t ix = l[i].get_ordinal() - static_cast<uint64_t>(info.get_ordinal_base());
                MC_REQUIRE(c, l[i].get_ordinal() >= info.get_ordinal_base() && ix < info.get_number_of_functions(), "export-ordinal", "function %zu: ordinal %u is not one of the directory", i, l[i].get_ordinal());
                MC_REQUIRE(c, l[i].get_rva() == m.r32(fs + 4 * ix), "export-address", "function %zu: address %#x differs from the image", i, l[i].get_rva());
                if(l[i].has_name())
                {
                    bool found = false;
                    for(uint64_t k = 0; k < nn && !found; ++k) found = m.r16(os + 2 * k) == ix && cstr(m, m.r32(ns + 4 * k)) == l[i].get_name();
                    MC_REQUIRE(c, found, "export-name", "function %zu: its name is not in the image", i);
                }
                if(l[i].is_forwarded()) MC_REQUIRE(c, l[i].get_forwarded_name() == cstr(m, l[i].get_rva()), "export-forwarder", "function %zu: its forwarder differs from the image", i);
                ++n;
            }
            break;
        }
        case d_relocs:
        {
            const relocation_table_list l = get_relocations(pe, true), l2 = get_relocations(pe);
            MC_REQUIRE(c, l.size() == l2.size(), "relocation-overload", "%zu blocks with absolute entries, %zu without", l.size(), l2.size());
            uint64_t at = dir;
            for(size_t i = 0; i < l.size(); ++i)
            {
                const relocation_table::relocation_list& r = l[i].get_relocations();
                const uint64_t size = m.r32(at + 4);
                MC_REQUIRE(c, at - dir < pe.get_directory_size(5), "relocation-outside", "block %zu begins outside the directory", i);
                MC_REQUIRE(c, l[i].get_rva() == m.r32(at) && r.size() == (size >= 8 ? (size - 8) / 2 : 0), "relocation-block", "block %zu: %#x with %zu entries differs from the image", i, l[i].get_rva(), r.size());
                for(size_t k = 0; k < r.size(); ++k) MC_REQUIRE(c, r[k].get_item() == m.r16(at + 8 + 2 * k), "relocation-entry", "block %zu entry %zu differs from the image", i, k);
                at += size;
                n += 1 + r.size();
            }
            break;
        }
        case d_tls:
        {
            const tls_info t = get_tls_info(pe);
            MC_REQUIRE(c, m.has(dir, 4 * w + 8), "tls-outside", "the directory lies partly outside the image");
            const uint64_t s = m.rd(dir, w), e = m.rd(dir + w, w), cb = m.rd(dir + 3 * w, w);
            MC_REQUIRE(c, t.get_size_of_zero_fill() == m.r32(dir + 4 * w) && t.get_characteristics() == m.r32(dir + 4 * w + 4), "tls-fields", "zero fill or characteristics differ from the image");
            if(!t.get_raw_data().empty()) MC_REQUIRE(c, e > s && s - ib < 0x100000000ULL && t.get_raw_data() == m.bytes(s - ib, e - s), "tls-data", "raw data differs from the image");
            for(size_t k = 0; k < t.get_tls_callbacks().size(); ++k) MC_REQUIRE(c, t.get_tls_callbacks()[k] == static_cast<uint32_t>(m.rd(cb - ib + static_cast<uint64_t>(w) * k, w) - ib), "tls-callback", "callback %zu differs from the image", k);
            n += 1 + t.get_tls_callbacks().size();
            break;
        }
        case d_config:
        {
            const image_config_info g = get_image_config(pe);
            MC_REQUIRE(c, m.has(dir, p64 ? 112 : 72), "config-outside", "the directory lies partly outside the image");
            const unsigned o = p64 ? 96 : 64, lpo = p64 ? 40 : 32;
            const uint64_t se = m.rd(dir + o, w), cnt = m.rd(dir + o + w, w), lp = m.rd(dir + lpo, w);
            MC_REQUIRE(c, g.get_time_stamp() == m.r32(dir + 4) && g.get_se_handler_table_va() == se && g.get_lock_prefix_table_va() == lp && g.get_se_handler_rvas().size() == cnt, "config-fields", "%zu handlers reported, the image states %llu", g.get_se_handler_rvas().size(), static_cast<unsigned long long>(cnt));
            for(size_t k = 0; k < g.get_se_handler_rvas().size(); ++k) MC_REQUIRE(c, g.get_se_handler_rvas()[k] == m.r32(se - ib + 4 * k), "config-handler", "handler %zu differs from the image", k);
            for(size_t k = 0; k < g.get_lock_prefix_rvas().size(); ++k) MC_REQUIRE(c, g.get_lock_prefix_rvas()[k] == m.rd(lp - ib + static_cast<uint64_t>(w) * k, w) - ib, "config-prefix", "lock prefix %zu differs from the image", k);
            n += 1 + g.get_se_handler_rvas().size() + g.get_lock_prefix_rvas().size();
            break;
        }
        case d_bound:
        {
            const bound_import_module_list l = get_bound_import_module_list(pe);
            uint64_t at = dir;
            for(size_t i = 0; i < l.size(); ++i, at += 8)
            {
                const bound_import::ref_list& r = l[i].get_module_ref_list();
                MC_REQUIRE(c, l[i].get_timestamp() == m.r32(at) && l[i].get_module_name() == cstr(m, dir + m.r16(at + 4)) && r.size() == m.r16(at + 6), "bound-module", "module %zu differs from the image", i);
                ++n;
                for(size_t k = 0; k < r.size(); ++k) { at += 8; MC_REQUIRE(c, m.has(at, 8) && r[k].get_timestamp() == m.r32(at) && r[k].get_module_name() == cstr(m, dir + m.r16(at + 4)), "bound-reference", "module %zu reference %zu differs from the image", i, k); ++n; }
            }
            break;
        }
        case d_exceptions:
        {
            const exception_entry_list l = get_exception_directory_data(pe);
            for(size_t i = 0; i < l.size(); ++i)
            {
                const uint64_t at = dir + 12ULL * i;
                MC_REQUIRE(c, at - dir < pe.get_directory_size(3), "exception-outside", "function %zu lies outside the directory", i);
                MC_REQUIRE(c, l[i].get_begin_address() == m.r32(at) && l[i].get_end_address() == m.r32(at + 4) && l[i].get_unwind_info_address() == m.r32(at + 8), "exception-entry", "function %zu differs from the image", i);
                const uint32_t u = m.r32(l[i].get_unwind_info_address());
                MC_REQUIRE(c, l[i].get_unwind_info_version() == (u & 7) && l[i].get_flags() == (u >> 3 & 31) && l[i].get_size_of_prolog() == (u >> 8 & 255) && l[i].get_number_of_unwind_slots() == (u >> 16 & 255) && l[i].get_frame_pointer_register_number() == (u >> 24 & 15) && l[i].get_scaled_rsp_offset() == u >> 28, "exception-unwind", "unwind information %zu differs from the image", i);
                ++n;
            }
            break;
        }
        case d_debug:
        {
            const debug_info_list l = get_debug_information(pe);
            for(size_t i = 0; i < l.size(); ++i)
            {
                const uint64_t at = dir + 28ULL * i;
                MC_REQUIRE(c, at - dir < pe.get_directory_size(6), "debug-outside", "entry %zu lies outside the directory", i);
                MC_REQUIRE(c, l[i].get_characteristics() == m.r32(at) && l[i].get_time_stamp() == m.r32(at + 4) && l[i].get_type_raw() == m.r32(at + 12) && l[i].get_size_of_data() == m.r32(at + 16) && l[i].get_rva_of_raw_data() == m.r32(at + 20) && l[i].get_pointer_to_raw_data() == m.r32(at + 24), "debug-entry", "entry %zu differs from the image", i);
                ++n;
                const debug_info::advanced_info_type a = l[i].get_advanced_info_type();
                if(a == debug_info::advanced_info_none) continue;
                const pe_base::debug_data_list& raw = pe.get_raw_debug_data_list();
                MC_REQUIRE(c, raw.count(m.r32(at + 24)), "debug-data", "entry %zu has details, but no data was read", i);
                const Bytes& b = raw.find(m.r32(at + 24))->second;
                MC_REQUIRE(c, b.size() == m.r32(at + 16) || i, "debug-size", "entry %zu has %zu bytes of data, the image states %u", i, b.size(), m.r32(at + 16));
                // every name is in the data, with its terminator
                if(a == debug_info::advanced_info_pdb_7_0) { const Bytes s = l[i].get_advanced_debug_info<pdb_7_0_info>().get_pdb_file_name(); MC_REQUIRE(c, b.size() > 24 && b.compare(24, s.size() + 1, Bytes(s.c_str(), s.size() + 1)) == 0, "debug-name", "entry %zu: its file name is not in its data", i); }
                if(a == debug_info::advanced_info_pdb_2_0) { const Bytes s = l[i].get_advanced_debug_info<pdb_2_0_info>().get_pdb_file_name(); MC_REQUIRE(c, b.size() > 16 && b.compare(16, s.size() + 1, Bytes(s.c_str(), s.size() + 1)) == 0, "debug-name", "entry %zu: its file name is not in its data", i); }
                if(a == debug_info::advanced_info_misc)
                {
                    const misc_debug_info x = l[i].get_advanced_debug_info<misc_debug_info>();
                    if(!x.is_unicode()) MC_REQUIRE(c, b.size() >= 12 + x.get_data_ansi().size() && b.compare(12, x.get_data_ansi().size(), x.get_data_ansi()) == 0, "debug-misc", "entry %zu: its text is not in its data", i);
                    else MC_REQUIRE(c, b.size() >= 12 + 2 * x.get_data_unicode().size(), "debug-misc", "entry %zu: its text is not in its data", i);
                }
                if(a == debug_info::advanced_info_coff)
                {
                    const coff_debug_info x = l[i].get_advanced_debug_info<coff_debug_info>();
                    const uint64_t first = x.get_lva_to_first_symbol(), names = first + 18ULL * x.get_number_of_symbols();
                    for(size_t k = 0; k < x.get_symbols().size(); ++k)
                    {
                        const coff_debug_info::coff_symbol& y = x.get_symbols()[k];
                        const uint64_t at2 = first + 18ULL * y.get_index();
                        MC_REQUIRE(c, at2 + 18 <= names && names <= b.size(), "debug-symbol", "entry %zu: symbol %zu lies outside its data", i, k);
                        if(y.is_file()) { MC_REQUIRE(c, at2 + 18 + y.get_symbol().size() <= names && b.compare(at2 + 18, y.get_symbol().size(), y.get_symbol()) == 0, "debug-file", "entry %zu: file name %zu is not in its data", i, k); continue; }
                        if(ref::get(b, at2, 4)) { MC_REQUIRE(c, Bytes(b, at2, 8).c_str() == y.get_symbol(), "debug-short", "entry %zu: short name %zu is not in its data", i, k); continue; }
                        const uint64_t lo = names + ref::get(b, at2 + 4, 4);
                        MC_REQUIRE(c, lo < b.size() && b.compare(lo, y.get_symbol().size() + 1, Bytes(y.get_symbol().c_str(), y.get_symbol().size() + 1)) == 0, "debug-long", "entry %zu: long name %zu is not in its data", i, k);
                    }
                }
            }
            break;
        }
        default:
        {
            const basic_dotnet_info g = get_basic_dotnet_info(pe);
            MC_REQUIRE(c, m.has(dir, 72), "dotnet-outside", "the header lies partly outside the image");
            MC_REQUIRE(c, g.get_major_runtime_version() == m.r16(dir + 4) && g.get_rva_of_metadata() == m.r32(dir + 8) && g.get_flags() == m.r32(dir + 16) && g.get_size_of_managed_native_header() == m.r32(dir + 68), "dotnet-fields", "fields differ from the image");
            ++n;
        }
        }
        h = n;
    }
    catch(const pe_exception& e) { h = 1000 + static_cast<uint64_t>(e.get_id()); }
    catch(const std::bad_alloc&) { h = 2000; }
    catch(const ref::Err& e) { c.fail("outside", "%s: something reported is not in the image: %s", dname[d], e.what.c_str()); }
    c.step();
    c.outcome(mc::mix(mc::mix(d, h), n));
}

// ---------------------------------------------------------------- damage
static std::vector<uint64_t> values(const Lay& l, unsigned w)
{
    std::vector<uint64_t> v;
    if(w == 1) { static const uint8_t x[] = { 0, 1, 0x7f, 0x80, 0xff }; v.assign(x, x + 5); return v; }
    if(w == 2) { const uint64_t x[] = { 0, 1, 2, 7, 8, l.len - 1, l.len, l.len + 1, 0xfff, 0x1000, 0x7fff, 0x8000, 0xffff }; v.assign(x, x + 13); return v; }
    const uint64_t end = 0x3000, img = l.last || l.cut >= 0 ? 0x3000 : 0x4000;
    const uint64_t r[] = { 0, 1, 2, 4, 7, 8, 9, 0x10, 0xffe, 0xfff, code_rva, 0x1fff, 0x2000, l.base, l.base + 2, l.end_ - 8, l.end_ - 4, l.end_ - 2, l.end_ - 1, l.end_, end - 8, end - 5, end - 4, end - 3, end - 2, end - 1, end, img - 1, img, 0x5f8, 0x5ff, 0x600, 0x3fffffff, 0x40000000, 0x7fffffff, 0x80000000u, 0xfffffff0u, 0xfffffffeu, 0xffffffffu };
    v.assign(r, r + sizeof(r) / sizeof(r[0]));
    const uint64_t ib = l.s.imagebase;
    const uint64_t a[] = { 0, l.base, end - 8, end - 4, end - 1, end, img - 1, img, 0xffffffffu, ~0ULL };
    for(size_t i = 0; i < 10; ++i) v.push_back(ib + a[i]);
    if(w == 8) { v.push_back(~0ULL); v.push_back(~0ULL - 7); v.push_back(1ULL << 63); v.push_back(0x100000000ULL); v.push_back(ib + (1ULL << 32)); v.push_back(ib + (1ULL << 32) + l.base); }
    return v;
}
// One field of the content or of its directory entry set to one value
static void damage(mc::Ctx& c, Lay& l, int d, int f)
{
    const size_t off = l.s.dirs_off() + 8 * dirno[d];
    if(f == 0) { ref::put32(l.file, off, c.pick(values(l, 4), "directory address")); return; }
    if(f == 1) { ref::put32(l.file, off + 4, c.pick(values(l, 4), "directory size")); return; }
    const size_t o = f - 2;
    const unsigned ws[] = { 1, 2, 4, 8 };
    const int k = o % 8 == 0 && l.pe64 ? 4 : o % 4 == 0 ? 3 : o % 2 == 0 ? 2 : 1;
    const unsigned w = ws[c.choose(k, "width")];
    std::vector<uint64_t> all = values(l, w);
    if(w > 1) // and its neighbours
    {
        uint64_t old = 0;
        for(unsigned i = 0; i < w; ++i) if(l.fileoff + o + i < l.file.size()) old |= static_cast<uint64_t>(static_cast<uint8_t>(l.file[l.fileoff + o + i])) << (8 * i);
        const uint64_t near[] = { old - 4, old - 2, old - 1, old + 1, old + 2, old + 4 };
        all.insert(all.end(), near, near + 6);
    }
    const uint64_t v = c.pick(all, "value");
    c.desc("byte %zu (width %u) = %#llx", o, w, static_cast<unsigned long long>(v));
    for(unsigned i = 0; i < w; ++i) if(l.fileoff + o + i < l.file.size()) l.file[l.fileoff + o + i] = static_cast<char>(v >> (8 * i));
}
static void fields(mc::Ctx& c)
{
    const int d = c.choose(dir_count, "directory");
    Lay l(c.flip("PE+"), c.choose(places, "place"));
    l.last = c.flip("last section");
    if(!make(c, l, d)) return;
    c.desc("%s", dname[d]);
    const int total = static_cast<int>(l.len) + 2;
    const int f = c.choose(total, "field");
    damage(c, l, d, f);
    pe_base pe(open_pe(l.file));
    confirm(c, pe, d);
}
// Pairs of aligned fields
static void pairs(mc::Ctx& c)
{
    const int d = c.choose(dir_count, "directory");
    Lay l(c.flip("PE+"), mc::thorough() ? c.choose(places, "place") : 1);
    l.last = true;
    if(!make(c, l, d)) return;
    c.desc("%s", dname[d]);
    const int total = static_cast<int>((l.len + 3) / 4) + 2;
    const uint64_t img = 0x3000, ib = l.s.imagebase;
    const uint64_t few[] = { 0, 1, 2, 9, l.base, l.end_ - 2, img - 4, img - 1, img, 0x40000000, 0x7fffffff, 0x80000000u, 0xfffffff8u, 0xffffffffu, ib + l.base, ib + img - 4, ib + img - 1, ib + img };
    const int f = c.choose(total, "field"), g = c.choose(total, "other field");
    if(g <= f) return;
    const int fs[] = { f, g };
    for(int i = 0; i < 2; ++i)
    {
        const uint64_t v = c.pick(few, "value");
        if(fs[i] < 2) { ref::put32(l.file, l.s.dirs_off() + 8 * dirno[d] + 4 * fs[i], v); continue; }
        const size_t o = 4 * (fs[i] - 2);
        const unsigned w = l.pe64 && o % 8 == 0 && v > 0xffffffffu ? 8 : 4;
        c.desc("byte %zu (width %u) = %#llx", o, w, static_cast<unsigned long long>(v));
        for(unsigned k = 0; k < w; ++k) if(l.fileoff + o + k < l.file.size()) l.file[l.fileoff + o + k] = static_cast<char>(v >> (8 * k));
    }
    pe_base pe(open_pe(l.file));
    confirm(c, pe, d);
}
// The section and the image end after every number of bytes of the content
static void truncated(mc::Ctx& c)
{
    const int d = c.choose(dir_count, "directory");
    Lay l(c.flip("PE+"), 1);
    const int k = c.choose(0x110, "bytes");
    l.cut = k;
    l.last = true;
    if(!make(c, l, d) || static_cast<size_t>(k) > l.len) return;
    c.desc("%s cut after %d of %zu bytes", dname[d], k, l.len);
    if(c.devs_left() > 0) { const int f = c.dev(k + 3, "damaged field"); if(f) damage(c, l, d, f - 1); }
    pe_base pe(open_pe(l.file));
    confirm(c, pe, d);
}
// The directory entry of each directory points everywhere
static void anywhere(mc::Ctx& c)
{
    const int d = c.choose(dir_count, "directory"), from = c.choose(dir_count, "content");
    Lay l(c.flip("PE+"), c.choose(3, "place"));
    if(!make(c, l, from)) return;
    static const uint32_t sizes[] = { 0, 1, 8, 40, 0x1000, 0x7fffffff, 0xffffffffu };
    const uint32_t at = l.base - 8 + 1 * c.choose(static_cast<int>(l.len) + 16, "address");
    l.s.dirs[dirno[d]].rva = at;
    ref::put32(l.file, l.s.dirs_off() + 8 * dirno[d], at);
    ref::put32(l.file, l.s.dirs_off() + 8 * dirno[d] + 4, c.pick(sizes, "size"));
    c.desc("%s read from %s at %#x", dname[d], dname[from], at);
    pe_base pe(open_pe(l.file));
    confirm(c, pe, d);
}
// Every short content over a small alphabet of words
static void words(mc::Ctx& c)
{
    const int d = c.choose(dir_count, "directory");
    Lay l(c.flip("PE+"), 1);
    l.last = true; l.plain = true;
    const int n = mc::tier_pick(4, 6);
    Piece p(4);
    const uint32_t base = 0x3000 - 4 * n;
    const uint32_t vals[] = { 0, 1, 8, base, base + 4, 0x2fff, 0x00080004, 0xffffffffu };
    for(int i = 0; i < n; ++i) p.v(c.pick(vals, "word"), 4);
    l.add(p);
    l.cut = 4 * n;
    static const uint32_t sizes[] = { 4, 20, 0x1000 };
    if(!l.build(c, dirno[d], c.pick(sizes, "size"), 0)) return;
    // the directory may begin inside headers data in front of the words
    c.desc("%s", dname[d]);
    pe_base pe(open_pe(l.file));
    confirm(c, pe, d);
}
// Debug data of every size, in the middle of the file and at its end
static Bytes debug_payload(mc::Ctx& c, int kind)
{
    Piece p(4);
    switch(kind)
    {
    case 0:
    {
        // the symbol table anywhere around its place
        static const uint32_t at[] = { 32, 0, 33, 50, 68, 0xfffffff0 }, count[] = { 0, 1, 2, 3, 0x0e38e38d, 0x0e38e38e };
        static const uint8_t cls[] = { 2, 3, 103 }, aux[] = { 0, 1, 255 };
        p.v(c.pick(count, "symbols"), 4); p.v(c.pick(at, "table"), 4); p.b += Bytes(24, 0);
        for(int i = 0; i < 2; ++i)
        {
            const int k = i ? c.choose(4, "name") : 2 * c.choose(2, "name");
            if(!k) p.b += Bytes("fn\0\0\0\0\0\0", 8); else { p.v(0, 4); p.v(k == 1 ? 0u : k == 2 ? 4u : 0xffffffb0u, 4); }
            p.v(0x1000, 4); p.v(1, 2); p.v(0x20, 2); p.v(c.pick(cls, "class"), 1); p.v(c.pick(aux, "aux"), 1);
        }
        p.v(8, 4); p.str("long");
        return p.b;
    }
    case 1: p.b = "RSDS"; p.b += Bytes(20, '\1'); p.str("n"); p.str("more"); return p.b;
    case 2: p.b = "NB10"; p.b += Bytes(12, '\1'); p.str("n"); p.str("more"); return p.b;
    case 3:
    {
        static const uint32_t len[] = { 0, 1, 11, 12, 13, 16, 17, 18, 19, 0x7fffffff, 0xffffffff };
        p.v(1, 4); p.v(c.pick(len, "length"), 4); p.v(c.choose(2, "unicode"), 4); p.str("data"); p.str("x");
        return p.b;
    }
    default: { static const char* const s[] = { "NB09", "NB11", "NB05", "NB08", "XXXX" }; p.b = c.pick(s, "signature"); p.b += Bytes(4, '\2'); return p.b; }
    }
}
static void debug_sizes(mc::Ctx& c)
{
    static const uint32_t types[] = { 1, 2, 2, 4, 2 };
    const int kind = c.choose(5, "kind");
    const Bytes payload = debug_payload(c, kind);
    static const uint8_t coff_sizes[] = { 0, 8, 31, 32, 33, 49, 50, 51, 67, 68, 69, 72, 76, 77, 78 };
    const uint32_t size = !kind && !mc::thorough() ? c.pick(coff_sizes, "size") : c.choose(static_cast<int>(payload.size()) + 2, "size");
    const bool tail = kind ? c.flip("ends the file") : false;
    ref::Spec s(kind ? c.flip("PE+") : false);
    Piece d(4); d.v(0, 4); d.v(1, 4); d.v(0, 4); d.v(types[kind], 4); d.v(size, 4); d.v(0x1000 + 28, 4); d.v(0, 4);
    s.add("a", d.b + payload);
    s.dirs[6].rva = 0x1000; s.dirs[6].size = 28;
    Bytes f = s.build();
    uint32_t at = s.secs[0].rawptr + 28;
    if(tail) { at = static_cast<uint32_t>(f.size()); f += payload; }
    ref::put32(f, s.secs[0].rawptr + 24, at);
    c.desc("debug data kind %d, %u bytes%s", kind, size, tail ? ", ends the file" : "");
    pe_base pe(open_pe(f));
    confirm(c, pe, d_debug);
}
namespace mc
{
const Part parts[] = {
    { "fields", fields, 0, 0, "9 directories x every byte, word, dword and qword set to boundary values x places; outcome: distinct result or refusal" },
    { "pairs", pairs, 0, 0, "9 directories x every pair of aligned fields set to boundary values; outcome: distinct result or refusal" },
    { "truncated", truncated, 0, 1, "9 directories cut by the image end after every byte (thorough: with one damaged field); outcome: distinct result or refusal" },
    { "anywhere", anywhere, 0, 0, "every directory read at every address in and around every content; outcome: distinct result or refusal" },
    { "debug-data", debug_sizes, 0, 0, "debug data of 5 kinds cut after every byte (COFF: at 15 sizes in quick), with every combination of symbol count, table position, name, class and auxiliary count from small alphabets; outcome: distinct result or refusal" },
    { "words", words, 0, 0, "every directory content of 4 (thorough 6) words over an alphabet of 8; outcome: distinct result or refusal" },
};
const int part_count = sizeof(parts) / sizeof(parts[0]);
}
