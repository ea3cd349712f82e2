// What the seven rebuildable directories say, as text.
#pragma once
#include "util.h"
#include <stdarg.h>
#include <map>

namespace dirs
{
using namespace u;
enum { d_imp, d_exp, d_rel, d_tls, d_cfg, d_res, d_bnd, count };
static const int entry[count] = { 1, 0, 5, 9, 10, 2, 11 };
static const char* const dname[count] = { "imports", "exports", "relocations", "tls", "config", "resources", "bound" };

// ---- what each directory says, as text; the text with addresses also names the places the library chose
inline void put(Bytes& b, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
inline void put(Bytes& b, const char* fmt, ...) { char t[400]; va_list a; va_start(a, fmt); vsnprintf(t, sizeof t, fmt, a); va_end(a); b += t; }
inline Bytes text(const imported_functions_list& l, bool addr)
{
    Bytes r;
    for(size_t i = 0; i < l.size(); ++i)
    {
        put(r, "[%s %x", l[i].get_name().c_str(), l[i].get_timestamp());
        if(addr) put(r, " %x %x", l[i].get_rva_to_iat(), l[i].get_rva_to_original_iat());
        const import_library::imported_list& f = l[i].get_imported_functions();
        for(size_t k = 0; k < f.size(); ++k)
        {
            if(f[k].has_name()) put(r, " %s/%x", f[k].get_name().c_str(), f[k].get_hint()); else put(r, " #%u", f[k].get_ordinal());
            if(addr) put(r, "@%llx", (unsigned long long)f[k].get_iat_va());
        }
        r += "]";
    }
    return r;
}
inline Bytes text(const exported_functions_list& l, const export_info& e, bool addr)
{
    Bytes r;
    put(r, "%s %x %x %u.%u", e.get_name().c_str(), e.get_characteristics(), e.get_timestamp(), e.get_major_version(), e.get_minor_version());
    if(addr) put(r, " base %u of %u/%u at %x %x %x", e.get_ordinal_base(), e.get_number_of_functions(), e.get_number_of_names(), e.get_rva_of_functions(), e.get_rva_of_names(), e.get_rva_of_name_ordinals());
    std::map<int, Bytes> by;    // in order of ordinals
    for(size_t i = 0; i < l.size(); ++i)
    {
        Bytes& b = by[l[i].get_ordinal()];
        put(b, " (%u", l[i].get_ordinal());
        if(l[i].is_forwarded()) put(b, ">%s", l[i].get_forwarded_name().c_str()); else put(b, "@%x", l[i].get_rva());
        if(l[i].has_name()) put(b, " %s", l[i].get_name().c_str());
        b += ")";
    }
    for(std::map<int, Bytes>::const_iterator i = by.begin(); i != by.end(); ++i) r += i->second;
    return r;
}
inline Bytes text(const relocation_table_list& l)
{
    Bytes r;
    for(size_t i = 0; i < l.size(); ++i)
    {
        put(r, "[%x", l[i].get_rva());
        const relocation_table::relocation_list& e = l[i].get_relocations();
        for(size_t k = 0; k < e.size(); ++k) if(e[k].get_type()) put(r, " %u:%x", e[k].get_type(), e[k].get_rva());
        r += "]";
    }
    return r;
}
inline Bytes text(const tls_info& t)
{
    Bytes r;
    put(r, "%x-%x i%x c%x z%x f%x:", t.get_raw_data_start_rva(), t.get_raw_data_end_rva(), t.get_index_rva(), t.get_callbacks_rva(), t.get_size_of_zero_fill(), t.get_characteristics());
    for(size_t i = 0; i < t.get_tls_callbacks().size(); ++i) put(r, " %x", t.get_tls_callbacks()[i]);
    return r + "|" + t.get_raw_data();
}
inline Bytes text(const image_config_info& t, bool addr)
{
    Bytes r;
    put(r, "%x %u.%u %x %x %x %llx %llx %llx %llx %llx %x %x %llx %llx", t.get_time_stamp(), t.get_major_version(), t.get_minor_version(), t.get_global_flags_clear(), t.get_global_flags_set(), t.get_critical_section_default_timeout(),
        (unsigned long long)t.get_decommit_free_block_threshold(), (unsigned long long)t.get_decommit_total_free_threshold(), (unsigned long long)t.get_max_allocation_size(), (unsigned long long)t.get_virtual_memory_threshold(),
        (unsigned long long)t.get_process_affinity_mask(), t.get_process_heap_flags(), t.get_service_pack_version(), (unsigned long long)t.get_edit_list_va(), (unsigned long long)t.get_security_cookie_va());
    r += " se";
    for(size_t i = 0; i < t.get_se_handler_rvas().size(); ++i) put(r, " %x", t.get_se_handler_rvas()[i]);
    r += " lock";
    for(size_t i = 0; i < t.get_lock_prefix_rvas().size(); ++i) put(r, " %x", t.get_lock_prefix_rvas()[i]);
    if(addr) put(r, " at %llx %llx", (unsigned long long)t.get_se_handler_table_va(), (unsigned long long)t.get_lock_prefix_table_va());
    return r;
}
inline Bytes text(const resource_directory& d)
{
    Bytes r;
    put(r, "{%x %x %u.%u", d.get_characteristics(), d.get_timestamp(), d.get_major_version(), d.get_minor_version());
    for(size_t i = 0; i < d.get_entry_list().size(); ++i)
    {
        const resource_directory_entry& e = d.get_entry_list()[i];
        if(e.is_named()) { r += " '"; for(size_t k = 0; k < e.get_name().size(); ++k) put(r, "%x,", (unsigned)e.get_name()[k]); r += "'"; } else put(r, " %u", e.get_id());
        if(e.includes_data()) { put(r, "=%u:", e.get_data_entry().get_codepage()); r += e.get_data_entry().get_data(); } else r += text(e.get_resource_directory());
    }
    return r + "}";
}
inline Bytes text(const bound_import_module_list& l)
{
    Bytes r;
    for(size_t i = 0; i < l.size(); ++i)
    {
        put(r, "[%s %x", l[i].get_module_name().c_str(), l[i].get_timestamp());
        for(size_t k = 0; k < l[i].get_module_ref_list().size(); ++k) put(r, " %s/%x", l[i].get_module_ref_list()[k].get_module_name().c_str(), l[i].get_module_ref_list()[k].get_timestamp());
        r += "]";
    }
    return r;
}
inline Bytes decode(const pe_base& pe, int d, bool addr)
{
    switch(d)
    {
    case d_imp: return text(get_imported_functions(pe), addr);
    case d_exp: { export_info e; const exported_functions_list l = get_exported_functions(pe, e); return text(l, e, addr); }
    case d_rel: return text(get_relocations(pe));
    case d_tls: return text(get_tls_info(pe));
    case d_cfg: return text(get_image_config(pe), addr);
    case d_res: return text(get_resources(pe));
    default: return text(get_bound_import_module_list(pe));
    }
}
}
