// Glue between the reference and the library under test.
#pragma once
#include "mc.h"
#include "ref.h"
#include <sstream>
#include <memory>
#include "pe_bliss.h"
#include "pe_bliss_resources.h"

namespace u
{
using namespace pe_bliss;
using ref::Bytes;

inline pe_base open_pe(const Bytes& b, bool mem = false, bool dbg = true)
{
    std::istringstream is(b);
    return pe_factory::create_pe(is, mem, dbg);
}
inline pe_base fresh(bool pe64, uint32_t salign = 0x1000, bool dll = false)
{
    return pe64 ? pe_base(pe_properties_64(), salign, dll) : pe_base(pe_properties_32(), salign, dll);
}
inline Bytes write_pe(pe_base& pe, bool strip = false, bool chg = true, bool bound = true)
{
    std::ostringstream os;
    rebuild_pe(pe, os, strip, chg, bound);
    return os.str();
}
// Loader memory as the image object describes it right now (raw data zero-extended)
inline ref::Mem mem_of(const pe_base& pe)
{
    ref::Mem m;
    m.add(0, pe.get_full_headers_data());
    const section_list& l = pe.get_image_sections();
    for(size_t i = 0; i < l.size(); ++i)
    {
        Bytes b = l[i].get_raw_data();
        uint64_t vs = ref::up(l[i].get_virtual_size() ? l[i].get_virtual_size() : l[i].get_size_of_raw_data(), pe.get_section_alignment());
        if(b.size() < vs) b.resize(vs, 0);
        m.add(l[i].get_virtual_address(), b);
    }
    return m;
}
inline section& add_sec(pe_base& pe, const std::string& name, const Bytes& data, uint32_t vsize = 0)
{
    section s;
    s.set_name(name);
    s.readable(true).writeable(true);
    s.set_raw_data(data);
    if(vsize) s.set_virtual_size(vsize);
    return pe.add_section(s);
}
// Bytes without trailing zero bytes
inline Bytes rtrim(Bytes b) { while(!b.empty() && b[b.size() - 1] == 0) b.erase(b.size() - 1); return b; }
// Sections compare equal up to zero padding
inline bool same_content(const Bytes& a, const Bytes& b) { return rtrim(a) == rtrim(b); }

// Full observable value of an image: used to compare copies and rebuilt images
inline Bytes fingerprint(const pe_base& pe, bool with_headers = true)
{
    Bytes r(pe.get_nt_headers_ptr(), pe.get_sizeof_nt_header());
    r.append(reinterpret_cast<const char*>(&pe.get_dos_header()), sizeof(pe_win::image_dos_header));
    r += pe.get_stub_overlay();
    ref::app32(r, pe.has_overlay());
    if(with_headers) r += pe.get_full_headers_data();
    const section_list& l = pe.get_image_sections();
    for(size_t i = 0; i < l.size(); ++i)
    {
        r.append(reinterpret_cast<const char*>(&l[i].get_raw_header()), sizeof(pe_win::image_section_header));
        ref::app32(r, static_cast<uint32_t>(l[i].get_raw_data().size()));
        r += l[i].get_raw_data();
    }
    const pe_base::debug_data_list& d = pe.get_raw_debug_data_list();
    for(pe_base::debug_data_list::const_iterator i = d.begin(); i != d.end(); ++i) { ref::app32(r, i->first); r += i->second; }
    return r;
}
// A file of any length that stores two blocks; the rest reads as zeros
struct SparseBuf : std::streambuf
{
    Bytes d, far;
    uint64_t far_at = 0, size = 0, pos = 0;
    char at(uint64_t p) const { return p < d.size() ? d[p] : p >= far_at && p - far_at < far.size() ? far[p - far_at] : 0; }
    std::streamsize xsgetn(char* p, std::streamsize n) override
    {
        const std::streamsize k = pos >= size ? 0 : static_cast<std::streamsize>(std::min<uint64_t>(n, size - pos));
        for(std::streamsize i = 0; i < k; ++i) p[i] = at(pos + i);
        pos += k;
        return k;
    }
    int_type underflow() override { return pos >= size ? traits_type::eof() : static_cast<unsigned char>(at(pos)); }
    int_type uflow() override { const int_type r = underflow(); if(pos < size) ++pos; return r; }
    pos_type seekoff(off_type o, std::ios_base::seekdir w, std::ios_base::openmode) override
    {
        const int64_t t = (w == std::ios_base::beg ? 0 : static_cast<int64_t>(w == std::ios_base::cur ? pos : size)) + o;
        if(t < 0) return pos_type(off_type(-1));
        pos = t;
        return pos_type(off_type(t));
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
};
}
