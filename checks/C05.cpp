// C05: a written image reopens as the same image.
#include "scen.h"
using namespace u;
const char* const mc::check_id = "C05";

// Everything about an image that can be asked for through its interface, by name
typedef std::vector<std::pair<std::string, uint64_t> > Values;
static Values values(const pe_base& p)
{
    Values v;
#define V(x) v.push_back(std::make_pair(std::string(#x), static_cast<uint64_t>(p.x())))
    V(get_pe_type); V(get_machine); V(get_time_date_stamp); V(get_characteristics); V(get_magic); V(get_ep); V(get_base_of_code); V(get_image_base_64);
    V(get_section_alignment); V(get_file_alignment); V(get_major_os_version); V(get_minor_os_version); V(get_major_subsystem_version); V(get_minor_subsystem_version);
    V(get_checksum); V(get_subsystem); V(get_dll_characteristics); V(get_stack_size_reserve_64); V(get_stack_size_commit_64); V(get_heap_size_reserve_64); V(get_heap_size_commit_64);
    V(get_number_of_rvas_and_sizes); V(get_pe_signature); V(is_console); V(is_gui); V(has_imports); V(has_exports); V(has_resources); V(has_reloc); V(has_bound_import); V(has_debug);
#undef V
    for(uint32_t i = 0; i < p.get_number_of_rvas_and_sizes(); ++i)
    {
        v.push_back(std::make_pair("directory rva", static_cast<uint64_t>(p.get_directory_rva(i))));
        v.push_back(std::make_pair("directory size", static_cast<uint64_t>(p.get_directory_size(i))));
    }
    return v;
}
struct SecV { std::string name; uint32_t va, vs, ch, raw; Bytes data, other; };
static std::vector<SecV> secs(const pe_base& p)
{
    std::vector<SecV> r;
    const section_list& l = p.get_image_sections();
    for(size_t i = 0; i < l.size(); ++i)
    {
        SecV s = { l[i].get_name(), l[i].get_virtual_address(), l[i].get_virtual_size(), l[i].get_characteristics(), l[i].get_size_of_raw_data(), l[i].get_raw_data(), Bytes(reinterpret_cast<const char*>(&l[i].get_raw_header()) + 24, 16) };
        r.push_back(s);
    }
    return r;
}
static void same_secs(mc::Ctx& c, const char* key, const std::vector<SecV>& a, const std::vector<SecV>& b)
{
    MC_REQUIRE(c, a.size() == b.size(), key, "%zu sections became %zu", a.size(), b.size());
    for(size_t i = 0; i < a.size(); ++i)
    {
        MC_REQUIRE(c, a[i].name == b[i].name && a[i].va == b[i].va && a[i].vs == b[i].vs && a[i].ch == b[i].ch, key, "section %zu: %s va %#x vsize %#x flags %#x became %s %#x %#x %#x", i,
            a[i].name.c_str(), a[i].va, a[i].vs, a[i].ch, b[i].name.c_str(), b[i].va, b[i].vs, b[i].ch);
        MC_REQUIRE(c, a[i].other == b[i].other, key, "section %zu: relocation or line number fields changed", i);
        MC_REQUIRE(c, same_content(a[i].data, b[i].data), key, "section %zu: content differs (%zu bytes, %zu bytes)", i, a[i].data.size(), b[i].data.size());
    }
}
static void roundtrip(mc::Ctx& c, std::unique_ptr<pe_base> p)
{
    const scen::Opt o = scen::options(c);
    pe_base& pe = *p;
    const Values v0 = values(pe);
    const std::vector<SecV> s0 = secs(pe);
    const Bytes stub0 = pe.get_stub_overlay();
    const pe_win::image_dos_header dos0 = static_cast<const pe_base&>(pe).get_dos_header();
    const bool inhdr = scen::bound_in_headers(pe);
    uint64_t bound_at = 0;
    const uint64_t end = ref::up(scen::header_end(pe, o, o.bound && inhdr, &bound_at), pe.get_file_alignment());
    const bool too_long = o.chg && !s0.empty() && end > s0[0].va;
    Bytes f;
    try
    {
        f = write_pe(pe, o.strip, o.chg, o.bound);
    }
    catch(const pe_exception& e)
    {
        MC_REQUIRE(c, too_long && e.get_id() == pe_exception::cannot_rebuild_image, "refused", "writing was refused: %s", e.what());
        same_secs(c, "refused-changed", s0, secs(pe));
        return;
    }
    MC_REQUIRE(c, !too_long, "accepted", "headers of %#llx bytes written before the first section at %#x", static_cast<unsigned long long>(end), s0[0].va);
    c.step();
    same_secs(c, "memory-changed", s0, secs(pe));
    std::unique_ptr<pe_base> q;
    try { q.reset(new pe_base(open_pe(f))); }
    catch(const std::exception& e) { c.fail("reopen", "written file cannot be opened: %s", e.what()); }
    same_secs(c, "sections", s0, secs(*q));
    const Values v1 = values(*q), vm = values(pe);
    MC_REQUIRE(c, v1.size() == v0.size() && vm.size() == v0.size(), "directories", "number of directories changed");
    size_t dirs = v0.size() - 2 * pe.get_number_of_rvas_and_sizes();
    for(size_t i = 0; i < v0.size(); ++i)
    {
        uint64_t want = v0[i].second, wantm = want;
        if(o.strip && v0[i].first == "get_base_of_code") want = wantm = 16;
        if(o.bound && inhdr && i == dirs + 22) { want = bound_at; wantm = vm[i].second; }
        MC_REQUIRE(c, v1[i].second == want, v0[i].first.c_str(), "%s was %#llx, after reopening %#llx", v0[i].first.c_str(), static_cast<unsigned long long>(v0[i].second), static_cast<unsigned long long>(v1[i].second));
        MC_REQUIRE(c, vm[i].second == wantm, "memory-values", "%s was %#llx, in memory after writing %#llx", v0[i].first.c_str(), static_cast<unsigned long long>(v0[i].second), static_cast<unsigned long long>(vm[i].second));
    }
    Bytes stub1 = q->get_stub_overlay(), want = o.strip ? Bytes() : stub0;
    want.resize(ref::up(want.size(), 4), 0);
    MC_REQUIRE(c, stub1 == want, "stub", "stub of %zu bytes became %zu bytes", stub0.size(), stub1.size());
    MC_REQUIRE(c, !memcmp(&q->get_dos_header(), &dos0, o.strip ? 16 : 60), "dos-header", "DOS header changed");
    bool raw = false;
    for(size_t i = 0; i < s0.size(); ++i) raw |= s0[i].raw != 0;
    MC_REQUIRE(c, !raw || !q->has_overlay(), "overlay", "written file has an overlay");
    // header words that have no getter must survive too: compare raw NT headers outside the fields the writer computes
    Bytes n0(static_cast<const pe_base&>(pe).get_nt_headers_ptr(), pe.get_sizeof_nt_header()), n1(static_cast<const pe_base&>(*q).get_nt_headers_ptr(), q->get_sizeof_nt_header());
    if(o.bound && inhdr) { const size_t at = n0.size() - 16 * 8 + 11 * 8; ref::put32(n0, at, bound_at); }
    n0.resize(n0.size() - 8 * (16 - pe.get_number_of_rvas_and_sizes())); n1.resize(n0.size());
    MC_REQUIRE(c, n0 == n1, "nt-headers", "NT headers in the file differ from the image");
    const section_list& l = static_cast<const pe_base&>(*q).get_image_sections();
    MC_REQUIRE(c, q->get_number_of_sections() == l.size(), "count", "section count");
    c.outcome(mc::hash(f));
    c.state(mc::hash(f));
    c.trace();
}
static void edited(mc::Ctx& c) { roundtrip(c, scen::make(c, mc::tier_pick(2, 3))); }
// Headers that end near a boundary
static void near(mc::Ctx& c) { roundtrip(c, scen::near(c)); }
// Up to the limit of sections
static void many(mc::Ctx& c) { roundtrip(c, scen::many(c, 96)); }
namespace mc
{
const Part parts[] = {
    { "roundtrip", edited, 0, 0, "15 sources x 2 flavours x up to 2 (3) of 24 edits x 8 write options: write, reopen, compare every header value, directory, section and the stub; an outcome is the written file" },
    { "header-ends", near, 0, 0, "5 sources x 2 flavours x 4 alignments x header ends within 9 bytes of 4 boundaries (one and two file alignments, the first section and one unit behind it) by the length of the stub, x 8 write options" },
    { "many-sections", many, 0, 0, "0 to 96 sections x 2 flavours x 2 (3) alignments x 2 (4) patterns of sizes, from a file or added, x 8 write options" },
};
const int part_count = sizeof(parts) / sizeof(parts[0]);
}
