// C19: rebuilt load configuration reads back unchanged.
#include "reb.h"
using namespace u;
const char* const mc::check_id = "C19";

// The fields in the order of the documented structures
enum { ts, majv, minv, gclear, gset, cst, dfree, dtotal, lockt, maxalloc, vmt, heapf, affinity, csd, edit, cookie, seht, sehn, nfields };
struct Conf { uint64_t f[nfields]; std::vector<uint32_t> se, lock; };
static const char* const fname[] = { "timestamp", "major", "minor", "flags clear", "flags set", "timeout", "decommit free", "decommit total", "lock table", "maximum allocation", "memory threshold", "heap flags", "affinity", "service pack", "edit list", "cookie", "handler table", "handler count" };
static const unsigned at32[] = { 4, 8, 10, 12, 16, 20, 24, 28, 32, 36, 40, 44, 48, 52, 56, 60, 64, 68 };
static const unsigned at64[] = { 4, 8, 10, 12, 16, 20, 24, 32, 40, 48, 56, 72, 64, 76, 80, 88, 96, 104 };
static unsigned width(int f, bool pe64)
{
    if(f == majv || f == minv || f == csd) return 2;
    if(f == ts || f == gclear || f == gset || f == cst || f == heapf) return 4;
    return pe64 ? 8 : 4;
}
static Conf read(const ref::Mem& m, uint32_t rva, bool pe64, uint64_t base)
{
    Conf r;
    const unsigned w = pe64 ? 8 : 4;
    for(int i = 0; i < nfields; ++i)
    {
        const uint32_t a = rva + (pe64 ? at64 : at32)[i];
        r.f[i] = width(i, pe64) == 2 ? m.r16(a) : width(i, pe64) == 4 ? m.r32(a) : m.r64(a);
    }
    if(r.f[seht]) for(uint64_t k = 0; k < r.f[sehn]; ++k) r.se.push_back(m.r32(static_cast<uint32_t>(r.f[seht] - base + 4 * k)));
    if(r.f[lockt]) for(uint32_t a = static_cast<uint32_t>(r.f[lockt] - base); ; a += w)
    {
        const uint64_t x = pe64 ? m.r64(a) : m.r32(a);
        if(!x) break;
        r.lock.push_back(static_cast<uint32_t>(x - base));
    }
    return r;
}
static void same(mc::Ctx& c, const char* who, const Conf& g, const Conf& w)
{
    for(int i = 0; i < nfields; ++i) MC_REQUIRE(c, g.f[i] == w.f[i], "field", "%s: %s is %#llx, should be %#llx", who, fname[i], (unsigned long long)g.f[i], (unsigned long long)w.f[i]);
    MC_REQUIRE(c, g.se == w.se, "handlers", "%s: other handlers (%zu, should be %zu)", who, g.se.size(), w.se.size());
    MC_REQUIRE(c, g.lock == w.lock, "locks", "%s: other lock prefixes (%zu, should be %zu)", who, g.lock.size(), w.lock.size());
}
static Conf from_library(const pe_base& pe)
{
    const image_config_info i = get_image_config(pe);
    Conf r;
    const uint64_t v[] = { i.get_time_stamp(), i.get_major_version(), i.get_minor_version(), i.get_global_flags_clear(), i.get_global_flags_set(), i.get_critical_section_default_timeout(), i.get_decommit_free_block_threshold(), i.get_decommit_total_free_threshold(),
        i.get_lock_prefix_table_va(), i.get_max_allocation_size(), i.get_virtual_memory_threshold(), i.get_process_heap_flags(), i.get_process_affinity_mask(), i.get_service_pack_version(), i.get_edit_list_va(), i.get_security_cookie_va(), i.get_se_handler_table_va(), i.get_se_handler_count() };
    for(int k = 0; k < nfields; ++k) r.f[k] = v[k];
    r.se = i.get_se_handler_rvas(); r.lock = i.get_lock_prefix_rvas();
    return r;
}
static image_config_info to_library(const Conf& v)
{
    image_config_info i;
    i.add_se_handler_rva(1); i.clear_se_handler_list(); i.add_lock_prefix_rva(1); i.clear_lock_prefix_list();
    i.set_time_stamp(static_cast<uint32_t>(v.f[ts])); i.set_major_version(static_cast<uint16_t>(v.f[majv])); i.set_minor_version(static_cast<uint16_t>(v.f[minv]));
    i.set_global_flags_clear(static_cast<uint32_t>(v.f[gclear])); i.set_global_flags_set(static_cast<uint32_t>(v.f[gset])); i.set_critical_section_default_timeout(static_cast<uint32_t>(v.f[cst]));
    i.set_decommit_free_block_threshold(v.f[dfree]); i.set_decommit_total_free_threshold(v.f[dtotal]); i.set_lock_prefix_table_va(v.f[lockt]); i.set_max_allocation_size(v.f[maxalloc]);
    i.set_virtual_memory_threshold(v.f[vmt]); i.set_process_heap_flags(static_cast<uint32_t>(v.f[heapf])); i.set_process_affinity_mask(v.f[affinity]); i.set_service_pack_version(static_cast<uint16_t>(v.f[csd]));
    i.set_edit_list_va(v.f[edit]); i.set_security_cookie_va(v.f[cookie]); i.set_se_handler_table_va(v.f[seht]);
    for(size_t k = 0; k < v.se.size(); ++k) if(k % 2) i.get_se_handler_rvas().push_back(v.se[k]); else i.add_se_handler_rva(v.se[k]);
    for(size_t k = 0; k < v.lock.size(); ++k) if(k % 2) i.get_lock_prefix_rvas().push_back(v.lock[k]); else i.add_lock_prefix_rva(v.lock[k]);
    return i;
}
struct Set { uint32_t off; bool wse, wlock, hdr, strip; };
static uint32_t need(const Conf& v, const Set& st, bool pe64)
{
    return (pe64 ? 112 : 72) + (st.wse ? 4 * static_cast<uint32_t>(v.se.size()) : 0) + (st.wlock && !v.lock.empty() ? (pe64 ? 8 : 4) * (static_cast<uint32_t>(v.lock.size()) + 1) : 0);
}
static void run(mc::Ctx& c, pe_base& pe, size_t at, bool pe64, const Conf& in, const Set& st)
{
    const unsigned w = pe64 ? 8 : 4, size = pe64 ? 112 : 72;
    const uint64_t base = pe.get_image_base_64();
    const uint32_t va = pe.get_image_sections()[at].get_virtual_address(), pos = va + static_cast<uint32_t>(ref::up(st.off, w));
    reb::Snap before = reb::snap(pe);
    c.step();
    const image_directory dir = rebuild_image_config(pe, to_library(in), pe.get_image_sections()[at], st.off, st.wse, st.wlock, st.hdr, st.strip);
    MC_REQUIRE(c, dir.get_rva() == pos && dir.get_size() == size, "directory", "directory is %#x+%#x, should be %#x+%#x", dir.get_rva(), dir.get_size(), pos, size);
    reb::inside_section(c, pe, at, dir);
    reb::untouched(c, pe, before, at, pos - va, pos - va + need(in, st, pe64));
    reb::headers_kept(c, pe, before, st.hdr ? 10 : -1, dir.get_rva(), dir.get_size());
    Conf want = in;
    const ref::Mem m = mem_of(pe);
    MC_REQUIRE(c, m.r32(pos) == size, "size-field", "structure size is %#x", m.r32(pos));
    want.f[sehn] = in.se.size();
    if(st.wse)
    {
        std::sort(want.se.begin(), want.se.end());
        want.f[seht] = (pe64 ? m.r64(pos + at64[seht]) : m.r32(pos + at32[seht]));
        MC_REQUIRE(c, (want.f[seht] == 0) == in.se.empty(), "handler-table", "handler table is at %#llx", (unsigned long long)want.f[seht]);
    }
    if(st.wlock)
    {
        want.f[lockt] = (pe64 ? m.r64(pos + at64[lockt]) : m.r32(pos + at32[lockt]));
        MC_REQUIRE(c, (want.f[lockt] == 0) == in.lock.empty(), "lock-table", "lock prefix table is at %#llx", (unsigned long long)want.f[lockt]);
    }
    same(c, "reader", read(m, pos, pe64, base), want);
    if(!st.hdr) { pe.set_directory_rva(10, dir.get_rva()); pe.set_directory_size(10, dir.get_size()); }
    same(c, "library", from_library(pe), want);
    const Bytes f = write_pe(pe);
    const ref::Img im = ref::Img::parse(f);
    MC_REQUIRE(c, im.h.dirs[10].rva == pos && im.h.dirs[10].size == size, "written-directory", "written directory differs");
    same(c, "reader (written)", read(ref::Mem::map(im), pos, pe64, base), want);
    pe_base q(open_pe(f, false, false));
    same(c, "library (reopened)", from_library(q), want);
    // what was read can be written again
    const image_config_info again = get_image_config(q);
    rebuild_image_config(q, again, q.get_image_sections()[at], st.off, st.wse, st.wlock, true, st.strip);
    same(c, "library (rebuilt again)", from_library(q), want);
    uint64_t h = mc::mix(pos, want.se.size() * 100 + want.lock.size());
    for(int i = 0; i < nfields; ++i) h = mc::mix(h, want.f[i]);
    for(size_t k = 0; k < want.se.size(); ++k) h = mc::mix(h, want.se[k]);
    for(size_t k = 0; k < want.lock.size(); ++k) h = mc::mix(h, want.lock[k]);
    c.outcome(h);
    c.trace();
}
static Conf plain(bool pe64)
{
    Conf v;
    for(int i = 0; i < nfields; ++i)
    {
        v.f[i] = 0x0102030405060708ULL * (i + 3);
        if(width(i, pe64) < 8) v.f[i] &= (1ULL << 8 * width(i, pe64)) - 1;
    }
    v.f[seht] = v.f[lockt] = 0;
    return v;
}
// Tables that are in the image already
static void existing(pe_base& pe, bool pe64, const Conf& v)
{
    Bytes& r = pe.get_image_sections()[0].get_raw_data();
    const unsigned w = pe64 ? 8 : 4;
    for(size_t k = 0; k < v.se.size(); ++k) ref::put32(r, 4 * k, v.se[k]);
    for(size_t k = 0; k <= v.lock.size(); ++k)
    {
        const uint64_t x = k < v.lock.size() ? pe.get_image_base_64() + v.lock[k] : 0;
        if(w == 8) ref::put64(r, 16 + 8 * k, x); else ref::put32(r, 16 + 4 * k, static_cast<uint32_t>(x));
    }
}
static void configurations(mc::Ctx& c)
{
    const bool pe64 = c.flip("flavour");
    std::unique_ptr<pe_base> pe;
    const int lay = c.dev(reb::layouts, "layout");
    Set st;
    static const uint32_t offs[] = { 0, 3, 0x14, 0x101 };
    st.off = offs[c.dev(4, "offset")]; st.hdr = !c.dev(2, "headers"); st.strip = !c.dev(2, "strip"); st.wse = !c.dev(2, "write handlers"); st.wlock = !c.dev(2, "write lock prefixes");
    const size_t at = reb::layout(c, pe, lay, pe64);
    Conf v = plain(pe64);
    for(int i = 0; i < nfields; ++i)
    {
        if(i == sehn || (i == seht && !st.wse) || (i == lockt && !st.wlock)) continue;
        const int k = c.dev(3, fname[i]);
        if(k) v.f[i] = k == 1 ? 0 : width(i, pe64) == 8 ? ~0ULL : (1ULL << 8 * width(i, pe64)) - 1;
    }
    static const uint32_t addr[] = { 0x1010, 0x1004, 0, 0x80000000 };
    const int ns = c.choose(mc::tier_pick(3, 4), "handlers"), nl = c.choose(3, "lock prefixes");
    for(int i = 0; i < ns; ++i) v.se.push_back(addr[c.choose(4, "handler")]);
    for(int i = 0; i < nl; ++i) v.lock.push_back(addr[c.choose(2, "lock prefix")]);
    if(!st.wse || !st.wlock)
    {
        existing(*pe, pe64, v);
        const uint64_t a = pe->get_image_base_64() + pe->get_image_sections()[0].get_virtual_address();
        if(!st.wse) v.f[seht] = v.se.empty() ? c.dev(2, "unused table") * 0x7777 : a;
        if(!st.wlock) v.f[lockt] = v.lock.empty() && !c.dev(2, "empty table") ? 0 : a + 16;
    }
    c.desc(" off=%#x wse=%d wlock=%d hdr=%d strip=%d", st.off, st.wse, st.wlock, st.hdr, st.strip);
    for(size_t i = 0; i < v.se.size(); ++i) c.desc(" se:%#x", v.se[i]);
    for(size_t i = 0; i < v.lock.size(); ++i) c.desc(" lock:%#x", v.lock[i]);
    run(c, *pe, at, pe64, v, st);
}
static void orders(mc::Ctx& c)
{
    const bool pe64 = c.flip("flavour");
    std::unique_ptr<pe_base> pe;
    const size_t at = reb::layout(c, pe, 0, pe64);
    Conf v = plain(pe64);
    const int n = mc::tier_pick(5, 7);
    std::vector<uint32_t> left;
    for(int i = 0; i < n; ++i) left.push_back(i == 3 ? 0x1000 : 0x1000u + 0x7fffffffu * (i % 3) + i);
    while(!left.empty()) { const int k = c.choose(static_cast<int>(left.size()), "order"); v.se.push_back(left[k]); v.lock.push_back(left[k] & 0xffffff); c.desc(" %#x", left[k]); left.erase(left.begin() + k); }
    const Set st = { 0, true, true, true, true };
    run(c, *pe, at, pe64, v, st);
}
static void sizes(mc::Ctx& c)
{
    const bool pe64 = c.flip("flavour");
    const int lay = c.choose(6, "layout"), mode = c.choose(3, "what"), k = c.choose(mc::tier_pick(480, 2000), "size");
    std::unique_ptr<pe_base> pe;
    const size_t at = reb::layout(c, pe, lay == 5 ? reb::big_dirty : lay, pe64);
    Conf v = plain(pe64);
    if(mode != 1) for(int i = 0; i < k; ++i) v.se.push_back(0x1000 + (i * 7919) % 4096);
    if(mode != 0) for(int i = 0; i < k; ++i) v.lock.push_back(0x1000 + (i * 7919) % 4096);
    c.desc(" mode %d size %d", mode, k);
    const Set st = { uint32_t(mode == 2 ? k % 9 : 0), true, true, true, k % 2 != 0 };
    const Bytes fp = fingerprint(*pe);
    try { run(c, *pe, at, pe64, v, st); }
    catch(const pe_exception& e)
    {
        MC_REQUIRE(c, lay == 1 && e.get_id() == pe_exception::insufficient_space, "refused", "refused: %s", e.what());
        reb::unchanged(c, *pe, fp, "the configuration that does not fit");
        MC_REQUIRE(c, need(v, st, pe64) + (v.lock.empty() ? 8 : 0) + ref::up(st.off, 8) > 0x600, "refused-room", "%u bytes are refused in a section of 0x600", need(v, st, pe64));
        c.outcome(2);
    }
}
namespace mc
{
const Part parts[] = {
    { "configurations", configurations, 2, 3, "all handler lists of up to 2 (3) over 4 addresses and lock prefix lists of up to 2 over 2, with up to 2 (3) settings changed (9 layouts, offsets, writing options, header update, stripping, every field at zero or its maximum); read by a loader-style reader and by the library, before and after writing, and rebuilt once more" },
    { "orders", orders, 0, 0, "all orders of 5 (7) handlers and lock prefixes" },
    { "sizes", sizes, 0, 0, "tables of 0..479 (0..1999) entries in 6 layouts, refused only when they do not fit" },
};
const int part_count = sizeof(parts) / sizeof(parts[0]);
}
