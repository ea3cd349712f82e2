// C10: data access by address returns the right bytes and respects bounds.
#include "scen.h"
#include <functional>
using namespace u;
const char* const mc::check_id = "C10";

struct B1 { uint8_t b[1]; }; struct B2 { uint8_t b[2]; }; struct B3 { uint8_t b[3]; }; struct B8 { uint8_t b[8]; }; struct B40 { uint8_t b[40]; };
template<typename F> static int ask(F f, Bytes& v) { try { v = f(); return 1; } catch(const pe_exception&) { return 0; } }
template<typename T> static Bytes bytes(const T& t) { return Bytes(reinterpret_cast<const char*>(&t), sizeof(T)); }

struct W
{
    const pe_base& pe; pe_base& mut;
    Bytes hdr; std::vector<Bytes> raw; std::vector<uint64_t> va, vs;
    uint64_t base;
    int find(uint64_t a) const { for(size_t i = 0; i < va.size(); ++i) if(a >= va[i] && a < va[i] + vs[i]) return static_cast<int>(i); return -1; }
};
// What an access of n bytes has to give; false = refuse
static bool expect(const W& w, uint64_t a, size_t n, bool virt, bool headers, int only, Bytes& v)
{
    if(headers && only < 0 && a + n <= w.hdr.size()) { v = w.hdr.substr(a, n); return true; }
    const int k = w.find(a);
    if(k < 0 || (only >= 0 && k != only)) return false;
    const uint64_t o = a - w.va[k], len = virt ? std::max<uint64_t>(w.vs[k], w.raw[k].size()) : w.raw[k].size();
    if(o + n > len) return false;
    v = o < w.raw[k].size() ? w.raw[k].substr(o, n) : Bytes();
    v.resize(n, 0);
    return true;
}
template<typename T> static void typed(mc::Ctx& c, const W& w, uint32_t a, bool virt, bool headers)
{
    const section_data_type t = virt ? section_data_virtual : section_data_raw;
    Bytes want, got;
    bool ok = expect(w, a, sizeof(T), virt, headers, -1, want);
    int r = ask([&]{ return bytes(w.pe.section_data_from_rva<T>(a, t, headers)); }, got);
    MC_REQUIRE(c, r == ok && (!ok || got == want), ok ? "typed" : "typed-outside", "%zu bytes at %#x (%s%s): %s %s, should be %s", sizeof(T), a, virt ? "virtual" : "raw", headers ? ", headers" : "", r ? "read" : "refused", r ? mc::hex(got, 8).c_str() : "", ok ? mc::hex(want, 8).c_str() : "refused");
    const uint64_t va = w.base + a;
    r = ask([&]{ return bytes(w.pe.section_data_from_va<T>(va, t, headers)); }, got);
    MC_REQUIRE(c, r == ok && (!ok || got == want), "typed-va", "%zu bytes at va %#llx", sizeof(T), static_cast<unsigned long long>(va));
    if(va <= 0xffffffff)
    {
        r = ask([&]{ return bytes(w.pe.section_data_from_va<T>(static_cast<uint32_t>(va), t, headers)); }, got);
        MC_REQUIRE(c, r == ok && (!ok || got == want), "typed-va-32", "%zu bytes at va %#llx", sizeof(T), static_cast<unsigned long long>(va));
    }
    if(!headers) for(size_t k = 0; k < w.va.size(); ++k)
    {
        ok = expect(w, a, sizeof(T), virt, false, static_cast<int>(k), want);
        const section& s = w.pe.get_image_sections()[k];
        r = ask([&]{ return bytes(w.pe.section_data_from_rva<T>(s, a, t)); }, got);
        MC_REQUIRE(c, r == ok && (!ok || got == want), ok ? "typed-section" : "typed-section-outside", "%zu bytes at %#x in section %zu (%s): %s", sizeof(T), a, k, virt ? "virtual" : "raw", r ? "read" : "refused");
        r = ask([&]{ return bytes(w.pe.section_data_from_va<T>(s, va, t)); }, got);
        MC_REQUIRE(c, r == ok && (!ok || got == want), "typed-section-va", "%zu bytes at %#x in section %zu", sizeof(T), a, k);
    }
    c.step();
}
// Pointers: a pointer must name a byte of the view, the rest of the view follows it
static void pointers(mc::Ctx& c, const W& w, uint32_t a, bool virt, bool headers)
{
    const section_data_type t = virt ? section_data_virtual : section_data_raw;
    Bytes want, got;
    const bool ok = expect(w, a, 1, virt, headers, -1, want);
    int r = ask([&]{ return Bytes(1, *w.pe.section_data_from_rva(a, t, headers)); }, got);
    MC_REQUIRE(c, r == ok && (!ok || got == want), ok ? "pointer" : "pointer-outside", "pointer to %#x (%s%s): %s", a, virt ? "virtual" : "raw", headers ? ", headers" : "", r ? "given" : "refused");
    const uint64_t va = w.base + a;
    r = ask([&]{ return Bytes(1, *w.pe.section_data_from_va(va, t, headers)); }, got);
    MC_REQUIRE(c, r == ok && (!ok || got == want), "pointer-va", "pointer to va of %#x", a);
    if(!virt)
    {
        r = ask([&]{ return Bytes(1, *w.mut.section_data_from_rva(a, headers)); }, got);
        MC_REQUIRE(c, r == ok && (!ok || got == want), ok ? "pointer-mutable" : "pointer-mutable-outside", "mutable pointer to %#x (%s): %s", a, headers ? "headers" : "", r ? "given" : "refused");
        r = ask([&]{ return Bytes(1, *w.mut.section_data_from_va(va, headers)); }, got);
        MC_REQUIRE(c, r == ok && (!ok || got == want), "pointer-mutable-va", "mutable pointer to va of %#x", a);
    }
    if(!headers) for(size_t k = 0; k < w.va.size(); ++k)
    {
        const bool oks = expect(w, a, 1, virt, false, static_cast<int>(k), want);
        const section& s = w.pe.get_image_sections()[k];
        r = ask([&]{ return Bytes(1, *w.pe.section_data_from_rva(s, a, t)); }, got);
        MC_REQUIRE(c, r == oks && (!oks || got == want), oks ? "pointer-section" : "pointer-section-outside", "pointer to %#x in section %zu (%s): %s", a, k, virt ? "virtual" : "raw", r ? "given" : "refused");
        if(!virt)
        {
            r = ask([&]{ return Bytes(1, *w.mut.section_data_from_rva(w.mut.get_image_sections()[k], a)); }, got);
            MC_REQUIRE(c, r == oks && (!oks || got == want), oks ? "pointer-section-mutable" : "pointer-section-mutable-outside", "mutable pointer to %#x in section %zu: %s", a, k, r ? "given" : "refused");
        }
    }
    c.step();
}
static int ask_n(const std::function<uint32_t()>& f, uint32_t& v) { try { v = f(); return 1; } catch(const pe_exception&) { return 0; } }
static void lengths(mc::Ctx& c, const W& w, uint32_t a, uint32_t in, bool virt, bool headers)
{
    const section_data_type t = virt ? section_data_virtual : section_data_raw;
    uint32_t v = 0;
    const uint64_t va = w.base + a, vin = w.base + in;
    const int k = w.find(a);
    // total length of the view that contains the address
    bool ok = true; uint64_t want = 0;
    if(headers && a < w.hdr.size()) want = w.hdr.size();
    else if(k >= 0) want = virt ? w.vs[k] : w.raw[k].size();
    else ok = false;
    int r = ask_n([&]{ return w.pe.section_data_length_from_rva(a, t, headers); }, v);
    MC_REQUIRE(c, r == ok && (!ok || v == want), "total", "total length at %#x (%s%s): %#x (%s), should be %#llx (%s)", a, virt ? "virtual" : "raw", headers ? ", headers" : "", v, r ? "given" : "refused", static_cast<unsigned long long>(want), ok ? "give" : "refuse");
    r = ask_n([&]{ return w.pe.section_data_length_from_va(va, t, headers); }, v);
    MC_REQUIRE(c, r == ok && (!ok || v == want), "total-va", "total length at va of %#x", a);
    // remaining length from a second address
    ok = true; want = 0;
    if(headers && a < w.hdr.size() && in < w.hdr.size()) want = w.hdr.size() - in;
    else if(k < 0 || in < w.va[k]) ok = false;
    else { const uint64_t end = w.va[k] + (virt ? w.vs[k] : w.raw[k].size()); want = end > in ? end - in : 0; }
    r = ask_n([&]{ return w.pe.section_data_length_from_rva(a, in, t, headers); }, v);
    MC_REQUIRE(c, r == ok && (!ok || v == want), "remaining", "length from %#x in the section of %#x (%s%s): %#x (%s), should be %#llx (%s)", in, a, virt ? "virtual" : "raw", headers ? ", headers" : "", v, r ? "given" : "refused", static_cast<unsigned long long>(want), ok ? "give" : "refuse");
    if(w.base + 0xffffffffULL <= 0xffffffffffffffffULL - w.base)
    {
        r = ask_n([&]{ return w.pe.section_data_length_from_va(va, vin, t, headers); }, v);
        MC_REQUIRE(c, r == ok && (!ok || v == want), "remaining-va", "length from va of %#x in the section of %#x", in, a);
    }
    if(!headers) for(size_t q = 0; q < w.va.size(); ++q)
    {
        const bool oks = w.find(a) == static_cast<int>(q);
        want = 0;
        if(oks) { const uint64_t end = w.va[q] + (virt ? w.vs[q] : w.raw[q].size()); want = end > a ? end - a : 0; }
        const section& s = w.pe.get_image_sections()[q];
        r = ask_n([&]{ return w.pe.section_data_length_from_rva(s, a, t); }, v);
        MC_REQUIRE(c, r == oks && (!oks || v == want), "remaining-section", "length from %#x in section %zu (%s): %#x (%s), should be %#llx", a, q, virt ? "virtual" : "raw", v, r ? "given" : "refused", static_cast<unsigned long long>(want));
        r = ask_n([&]{ return w.pe.section_data_length_from_va(s, va, t); }, v);
        MC_REQUIRE(c, r == oks && (!oks || v == want), "remaining-section-va", "length from va of %#x in section %zu", a, q);
    }
    c.step();
}
static std::unique_ptr<pe_base> layout(int n, bool pe64)
{
    if(n < scen::sources) return scen::source(n, pe64);
    ref::Spec s(pe64);
    if(n == scen::sources) { s.add("a", img::pattern(0x200, 1)); s.secs[0].vsize = 0; s.add("b", img::pattern(0x20, 2)); }
    else if(n == scen::sources + 1) { s.add("a", img::pattern(0x200, 3)); s.add("b", Bytes(), 0x7fff0000); s.add("c", img::pattern(0x200, 4)); s.add("d", Bytes(), 0x7ff00000); s.add("e", img::pattern(0x100, 5)); }
    else if(n == scen::sources + 2) { s.hdrsize = 0x1000; s.add("a", img::pattern(0x200, 6)); s.add("huge", Bytes(), 0x80000000); }
    else { s.hdrsize = 0x1fc; s.filealign = s.secalign = 4; s.lfanew = 0x40; s.stub.clear(); s.ndirs = 0; s.add("a", img::pattern(0x43, 7)); s.add("b", img::pattern(0x7, 8)); }
    return std::unique_ptr<pe_base>(new pe_base(open_pe(s.build())));
}
static void access(mc::Ctx& c)
{
    const int n = c.choose(scen::sources + 4, "layout");
    const bool pe64 = c.flip("flavour");
    std::unique_ptr<pe_base> p = layout(n, pe64);
    if(c.flip("low base")) p->set_image_base_64(0); else p->set_image_base_64(pe64 ? 0x7ff012340000ULL : 0x400000);
    pe_base mut(*p);
    W w = { *p, mut, p->get_full_headers_data(), std::vector<Bytes>(), std::vector<uint64_t>(), std::vector<uint64_t>(), p->get_image_base_64() };
    const section_list& l = static_cast<const pe_base&>(*p).get_image_sections();
    std::vector<uint32_t> edge;
    const int span = mc::thorough() ? 0x30 : 0xc;
    uint64_t at[64]; int m = 0;
    at[m++] = 0; at[m++] = w.hdr.size(); at[m++] = p->get_size_of_headers(); at[m++] = 0x80000000u;
    bool huge = false;
    for(size_t i = 0; i < l.size(); ++i)
    {
        w.va.push_back(l[i].get_virtual_address()); w.vs.push_back(ref::up(l[i].get_virtual_size() ? l[i].get_virtual_size() : l[i].get_size_of_raw_data(), p->get_section_alignment())); w.raw.push_back(l[i].get_raw_data());
        at[m++] = w.va[i]; at[m++] = w.va[i] + w.vs[i]; at[m++] = w.va[i] + w.raw[i].size(); at[m++] = w.va[i] + w.raw[i].size() / 2;
        if(w.vs[i] > 0x1000000) huge = true;
    }
    for(int i = 0; i < m; ++i) for(int d = -span - 40; d <= span; ++d) if(d >= -span || d == -40 || d == -39 || d == -41) { const uint64_t x = at[i] + d; edge.push_back(static_cast<uint32_t>(x)); }
    std::sort(edge.begin(), edge.end()); edge.erase(std::unique(edge.begin(), edge.end()), edge.end());
    const bool headers = c.flip("headers"), virt = c.flip("virtual");
    const int slice = c.choose(4, "slice");
    c.desc("%s layout %d headers=%d virtual=%d slice=%d", pe64 ? "PE+" : "PE", n, headers, virt, slice);
    for(size_t i = slice; i < edge.size(); i += 4)
    {
        const uint32_t a = edge[i];
        if(w.base + a > (pe64 ? 0xffffffffffffffffULL : 0xffffffffULL)) continue;
        const int k = w.find(a);
        // the virtual view of a section of gigabytes is not materialized here
        if(!(huge && virt && (k < 0 || w.vs[k] > 0x1000000)))
        {
            typed<B1>(c, w, a, virt, headers); typed<B2>(c, w, a, virt, headers); typed<B3>(c, w, a, virt, headers); typed<uint32_t>(c, w, a, virt, headers); typed<B8>(c, w, a, virt, headers); typed<B40>(c, w, a, virt, headers);
            pointers(c, w, a, virt, headers);
        }
        const size_t stride = mc::thorough() ? 1 : 7;
        for(size_t j = i % stride; j < edge.size(); j += stride) lengths(c, w, a, edge[j], virt, headers);
    }
    // what was read is not changed by reading
    for(size_t i = 0; i < l.size(); ++i) MC_REQUIRE(c, l[i].get_raw_data() == w.raw[i], "read-changes", "reading changed section %zu", i);
    c.outcome(mc::mix(mc::hash(fingerprint(*p)), slice * 4 + headers * 2 + virt));
    c.state(mc::mix(mc::hash(fingerprint(*p)), slice * 4 + headers * 2 + virt));
    c.trace();
}
// Every call that takes a VA, with VAs that agree with an address of the image in their low half
template<typename V> static void by_va(mc::Ctx& c, const W& w, V va, bool virt, bool headers)
{
    const section_data_type t = virt ? section_data_virtual : section_data_raw;
    const uint64_t a = va >= w.base && va - w.base <= 0xffffffffULL ? va - w.base : 0xffffffff00ULL;
    const bool in = a <= 0xffffffffULL;
    const int k = in ? w.find(a) : -1;
    const unsigned long long x = va;
    const int bits = sizeof(V) * 8;
    Bytes want, got;
    bool ok = in && expect(w, a, 1, virt, headers, -1, want);
    int r = ask([&]{ return bytes(w.pe.section_data_from_va<B1>(va, t, headers)); }, got);
    MC_REQUIRE(c, r == ok && (!ok || got == want), ok ? "va-typed" : "va-typed-outside", "byte at the %d-bit va %#llx: %s", bits, x, r ? "read" : "refused");
    r = ask([&]{ return Bytes(1, *w.pe.section_data_from_va(va, t, headers)); }, got);
    MC_REQUIRE(c, r == ok && (!ok || got == want), ok ? "va-pointer" : "va-pointer-outside", "pointer to the %d-bit va %#llx: %s", bits, x, r ? "given" : "refused");
    if(!virt)
    {
        r = ask([&]{ return Bytes(1, *w.mut.section_data_from_va(va, headers)); }, got);
        MC_REQUIRE(c, r == ok && (!ok || got == want), ok ? "va-mutable" : "va-mutable-outside", "mutable pointer to the %d-bit va %#llx: %s", bits, x, r ? "given" : "refused");
    }
    // lengths
    const bool h = in && headers && a < w.hdr.size();
    uint32_t v = 0;
    ok = h || k >= 0;
    uint64_t len = h ? w.hdr.size() : k >= 0 ? (virt ? w.vs[k] : w.raw[k].size()) : 0;
    r = ask_n([&]{ return w.pe.section_data_length_from_va(va, t, headers); }, v);
    MC_REQUIRE(c, r == ok && (!ok || v == len), ok ? "va-total" : "va-total-outside", "total length at the %d-bit va %#llx: %s", bits, x, r ? "given" : "refused");
    const uint64_t rest = h ? w.hdr.size() - a : k >= 0 && w.va[k] + len > a ? w.va[k] + len - a : 0;
    r = ask_n([&]{ return w.pe.section_data_length_from_va(va, va, t, headers); }, v);
    MC_REQUIRE(c, r == ok && (!ok || v == rest), ok ? "va-remaining" : "va-remaining-outside", "length from the %d-bit va %#llx: %s", bits, x, r ? "given" : "refused");
    if(!in)
    {
        // one of the two addresses is in the image
        for(size_t q = 0; q < w.va.size(); ++q) if(w.base + w.va[q] <= static_cast<V>(-1))
        {
            const V good = static_cast<V>(w.base + w.va[q]);
            r = ask_n([&]{ return w.pe.section_data_length_from_va(good, va, t, headers); }, v);
            MC_REQUIRE(c, !r, "va-second-outside", "length from the %d-bit va %#llx in section %zu: given", bits, x, q);
            r = ask_n([&]{ return w.pe.section_data_length_from_va(va, good, t, headers); }, v);
            MC_REQUIRE(c, !r, "va-first-outside", "length in the section of the %d-bit va %#llx: given", bits, x);
        }
    }
    if(!headers) for(size_t q = 0; q < w.va.size(); ++q)
    {
        const section& s = w.pe.get_image_sections()[q];
        ok = in && expect(w, a, 1, virt, false, static_cast<int>(q), want);
        r = ask([&]{ return bytes(w.pe.section_data_from_va<B1>(s, va, t)); }, got);
        MC_REQUIRE(c, r == ok && (!ok || got == want), ok ? "va-section-typed" : "va-section-typed-outside", "byte at the %d-bit va %#llx in section %zu: %s", bits, x, q, r ? "read" : "refused");
        r = ask([&]{ return Bytes(1, *w.pe.section_data_from_va(s, va, t)); }, got);
        MC_REQUIRE(c, r == ok && (!ok || got == want), ok ? "va-section-pointer" : "va-section-pointer-outside", "pointer to the %d-bit va %#llx in section %zu: %s", bits, x, q, r ? "given" : "refused");
        if(!virt)
        {
            r = ask([&]{ return Bytes(1, *w.mut.section_data_from_va(w.mut.get_image_sections()[q], va)); }, got);
            MC_REQUIRE(c, r == ok && (!ok || got == want), ok ? "va-section-mutable" : "va-section-mutable-outside", "mutable pointer to the %d-bit va %#llx in section %zu: %s", bits, x, q, r ? "given" : "refused");
        }
        ok = k == static_cast<int>(q);
        r = ask_n([&]{ return w.pe.section_data_length_from_va(s, va, t); }, v);
        MC_REQUIRE(c, r == ok && (!ok || v == rest), ok ? "va-section-remaining" : "va-section-remaining-outside", "length from the %d-bit va %#llx in section %zu: %s", bits, x, q, r ? "given" : "refused");
    }
    c.step();
}
static void vas(mc::Ctx& c)
{
    static const int src[] = { img::k_tiny, img::k_lowalign, img::kinds + 5, scen::sources + 3, scen::sources };
    const int n = c.choose(5, "layout");
    const bool pe64 = c.flip("flavour");
    std::unique_ptr<pe_base> p = layout(src[n], pe64);
    static const uint64_t b32[] = { 0, 0x400000, 0x7fff0000, 0xffff0000 }, b64[] = { 0, 0x400000, 0xffff0000, 0x100000000ULL, 0x140000000ULL, 0x7ff012340000ULL, 0x7fffffff00000000ULL, 0xffffffff00000000ULL };
    p->set_image_base_64(pe64 ? c.pick(b64, "base") : c.pick(b32, "base"));
    pe_base mut(*p);
    W w = { *p, mut, p->get_full_headers_data(), std::vector<Bytes>(), std::vector<uint64_t>(), std::vector<uint64_t>(), p->get_image_base_64() };
    const section_list& l = static_cast<const pe_base&>(*p).get_image_sections();
    const bool headers = c.flip("headers"), virt = c.flip("virtual");
    c.desc("%s layout %d base %#llx headers=%d virtual=%d", pe64 ? "PE+" : "PE", n, static_cast<unsigned long long>(w.base), headers, virt);
    std::vector<uint64_t> at;
    at.push_back(0); at.push_back(w.hdr.size());
    for(size_t i = 0; i < l.size(); ++i)
    {
        w.va.push_back(l[i].get_virtual_address()); w.vs.push_back(ref::up(l[i].get_virtual_size() ? l[i].get_virtual_size() : l[i].get_size_of_raw_data(), p->get_section_alignment())); w.raw.push_back(l[i].get_raw_data());
        at.push_back(w.va[i]); at.push_back(w.va[i] + w.vs[i]); at.push_back(w.va[i] + w.raw[i].size());
    }
    static const uint64_t off[] = { 0, 0x100000000ULL, 0x200000000ULL, 0x8000000000000000ULL, 0xffffffff00000000ULL, 0x80000000ULL };
    for(size_t i = 0; i < at.size(); ++i) for(int d = -3; d <= 3; ++d) for(size_t q = 0; q < sizeof(off) / sizeof(off[0]); ++q)
    {
        const uint64_t va = w.base + at[i] + static_cast<uint64_t>(static_cast<int64_t>(d)) + off[q];
        by_va<uint64_t>(c, w, va, virt, headers);
        by_va<uint32_t>(c, w, static_cast<uint32_t>(va), virt, headers);
        by_va<uint64_t>(c, w, static_cast<uint32_t>(va), virt, headers);
    }
    c.outcome(mc::mix(mc::hash(fingerprint(*p)), headers * 2 + virt));
    c.state(mc::mix(mc::hash(fingerprint(*p)), headers * 2 + virt));
    c.trace();
}
// Any number of sections up to the limit: what lies at each boundary of each section
static void many(mc::Ctx& c)
{
    const int n = 1 + c.choose(96, "sections");
    const bool pe64 = c.flip("flavour"), headers = c.flip("headers"), virt = c.flip("virtual");
    static const uint32_t al[][2] = { { 0x1000, 0x200 }, { 0x200, 0x200 } };
    const int a = c.choose(2, "alignments"), pat = c.choose(mc::tier_pick(1, 4), "sizes");
    c.desc("%s %d sections, alignments %#x/%#x, sizes %d, headers=%d virtual=%d", pe64 ? "PE+" : "PE", n, al[a][0], al[a][1], pat, headers, virt);
    pe_base pe(open_pe(scen::many_spec(n, pe64, al[a][0], al[a][1], pat).build()));
    pe_base mut(pe);
    W w = { pe, mut, pe.get_full_headers_data(), std::vector<Bytes>(), std::vector<uint64_t>(), std::vector<uint64_t>(), pe.get_image_base_64() };
    const section_list& l = static_cast<const pe_base&>(pe).get_image_sections();
    std::vector<uint32_t> edge;
    for(size_t i = 0; i < l.size(); ++i)
    {
        w.va.push_back(l[i].get_virtual_address()); w.vs.push_back(ref::up(l[i].get_virtual_size() ? l[i].get_virtual_size() : l[i].get_size_of_raw_data(), pe.get_section_alignment())); w.raw.push_back(l[i].get_raw_data());
        edge.push_back(static_cast<uint32_t>(w.va[i])); edge.push_back(static_cast<uint32_t>(w.va[i] + w.raw[i].size() - 1)); edge.push_back(static_cast<uint32_t>(w.va[i] + w.raw[i].size())); edge.push_back(static_cast<uint32_t>(w.va[i] + w.vs[i] - 1));
    }
    edge.push_back(static_cast<uint32_t>(w.va.back() + w.vs.back()));
    for(size_t i = 0; i < edge.size(); ++i)
    {
        // all sections are asked for by the first and the last of the addresses
        Bytes want, got;
        const bool ok = expect(w, edge[i], 1, virt, headers, -1, want);
        int r = ask([&]{ return bytes(pe.section_data_from_rva<B1>(edge[i], virt ? section_data_virtual : section_data_raw, headers)); }, got);
        MC_REQUIRE(c, r == ok && (!ok || got == want), "typed", "byte at %#x: %s", edge[i], r ? "read" : "refused");
        if(i % 37 < 2 || i + 2 > edge.size()) { typed<B1>(c, w, edge[i], virt, headers); typed<uint32_t>(c, w, edge[i], virt, headers); pointers(c, w, edge[i], virt, headers); }
        if(mc::thorough() || i % 4 == (i / 4) % 4) lengths(c, w, edge[i], edge[(i * 7) % edge.size()], virt, headers);
    }
    c.outcome(mc::mix(mc::hash(fingerprint(pe)), headers * 2 + virt));
    c.state(mc::mix(mc::hash(fingerprint(pe)), headers * 2 + virt));
    c.trace();
}
// Every address of small images, and writes through mutable pointers
static void sweep(mc::Ctx& c)
{
    const int n = c.choose(4, "layout");
    static const int src[] = { img::k_tiny, img::k_lowalign, img::kinds + 5, scen::sources + 3 };
    const bool pe64 = c.flip("flavour");
    std::unique_ptr<pe_base> p = layout(src[n], pe64);
    pe_base mut(*p);
    W w = { *p, mut, p->get_full_headers_data(), std::vector<Bytes>(), std::vector<uint64_t>(), std::vector<uint64_t>(), p->get_image_base_64() };
    const section_list& l = static_cast<const pe_base&>(*p).get_image_sections();
    uint64_t end = 0;
    for(size_t i = 0; i < l.size(); ++i) { w.va.push_back(l[i].get_virtual_address()); w.vs.push_back(ref::up(l[i].get_virtual_size() ? l[i].get_virtual_size() : l[i].get_size_of_raw_data(), p->get_section_alignment())); w.raw.push_back(l[i].get_raw_data()); end = w.va[i] + w.vs[i]; }
    const bool headers = c.flip("headers"), virt = c.flip("virtual");
    c.desc("%s small layout %d headers=%d virtual=%d", pe64 ? "PE+" : "PE", n, headers, virt);
    for(uint32_t a = 0; a < end + 0x10; ++a)
    {
        typed<B1>(c, w, a, virt, headers); typed<B3>(c, w, a, virt, headers); typed<uint32_t>(c, w, a, virt, headers); typed<B40>(c, w, a, virt, headers);
        pointers(c, w, a, virt, headers);
        lengths(c, w, a, a, virt, headers);
        if(!virt)
        {
            // a write through a mutable pointer changes that byte and no other
            try
            {
                char* q = mut.section_data_from_rva(a, headers);
                const Bytes before = fingerprint(mut);
                *q ^= 0x40;
                Bytes after = fingerprint(mut);
                size_t diff = 0;
                for(size_t i = 0; i < after.size(); ++i) diff += after[i] != before[i];
                MC_REQUIRE(c, after.size() == before.size() && diff == 1 && *mut.section_data_from_rva(a, headers) == *q, "write", "write through the pointer for %#x changed %zu bytes", a, diff);
                *q ^= 0x40;
            }
            catch(const pe_exception&) {}
        }
    }
    c.outcome(mc::mix(mc::hash(fingerprint(*p)), headers * 2 + virt));
    c.state(mc::mix(mc::hash(fingerprint(*p)), headers * 2 + virt));
    c.trace();
}
namespace mc
{
const Part parts[] = {
    { "boundaries", access, 0, 0, "20 layouts x 2 flavours x 2 bases x headers x view: typed reads of 1..40 bytes, pointers, lengths and pairs of addresses at every address near any boundary; a state is one layout and view" },
    { "vas", vas, 0, 0, "5 layouts x 4 (8) image bases x headers x view: every call that takes a 32-bit or a 64-bit VA, at each boundary +/- 3 and at the addresses that agree with it in the low half" },
    { "many-sections", many, 0, 0, "1 to 96 sections x 2 flavours x 2 alignments x 1 (4) patterns of sizes x headers x view: every boundary of every section" },
    { "sweep", sweep, 0, 0, "every address of 4 small layouts, all reads and lengths, and a write through each mutable pointer" },
};
const int part_count = sizeof(parts) / sizeof(parts[0]);
}
