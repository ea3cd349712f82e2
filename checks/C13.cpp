// C13: copies of an image, of debug records and of resource trees are independent and equal.
#include "scen.h"
#include <map>
using namespace u;
const char* const mc::check_id = "C13";

// ---- images: every value is named by its history, and the reference for a history is an image that was never copied
struct Hist { int source; bool pe64; std::vector<int> e; bool operator<(const Hist& o) const { return std::make_pair(std::make_pair(source, pe64), e) < std::make_pair(std::make_pair(o.source, o.pe64), o.e); } };
static const int edit_set[] = { 1, 5, 9, 14, 15, 16, 17, 18, 19, 20, 21, 23 };
struct Val { Bytes fp, file; };
static const Val& reference(const Hist& h)
{
    static std::map<Hist, Val>& cache = *new std::map<Hist, Val>;
    const auto i = cache.find(h);
    if(i != cache.end()) return i->second;
    std::unique_ptr<pe_base> p = scen::source(h.source, h.pe64);
    for(size_t k = 0; k < h.e.size(); ++k) scen::edit(*p, h.e[k]);
    Val v;
    v.fp = fingerprint(*p);
    v.file = write_pe(*p);
    return cache[h] = v;
}
static void images(mc::Ctx& c)
{
    mc::no_leak_check();    // the reference cache grows; leaks are counted below
    static const int srcs[] = { img::k_debug, img::k_overlay, img::kinds, img::kinds + 3 };
    Hist h[2];
    std::vector<pe_base> v;     // two images and whatever is pushed behind them
    v.reserve(2);
    h[0].source = c.pick(srcs, "first"); h[0].pe64 = c.flip("flavour"); h[1].source = img::k_plain; h[1].pe64 = !h[0].pe64;
    reference(h[0]); reference(h[1]);
    std::vector<Hist> m;
    for(int i = 0; i < 2; ++i) { v.push_back(*scen::source(h[i].source, h[i].pe64)); m.push_back(h[i]); }
    c.desc("sources %d/%d", h[0].source, h[1].source);
    // histories are short enough to warm the cache before counting allocations
    const int depth = mc::tier_pick(3, 4);
    const int ne = sizeof(edit_set) / sizeof(*edit_set);
    for(int step = 0; step < depth; ++step)
    {
        const int o = c.choose(2 * ne + 10, "operation");
        if(o < 2 * ne)
        {
            const int k = o & 1, e = edit_set[o / 2];
            c.desc(" %s/%d", scen::edit_name(e), k);
            scen::edit(v[k], e);
            m[k].e.push_back(e);
        }
        else switch(o - 2 * ne)
        {
        case 0: c.desc(" 0=1"); v[0] = v[1]; m[0] = m[1]; break;
        case 1: c.desc(" 1=0"); v[1] = v[0]; m[1] = m[0]; break;
        case 2: { c.desc(" 0=0"); pe_base& self = v[0]; v[0] = self; break; }
        case 3: { c.desc(" 1=1"); pe_base& self = v[1]; v[1] = self; break; }
        case 4: { c.desc(" push0"); pe_base t(v[0]); v.push_back(t); const Hist x = m[0]; m.push_back(x); break; }
        case 5: { c.desc(" swap"); std::swap(v[0], v[1]); std::swap(m[0], m[1]); break; }
        case 6: { c.desc(" copy-edit"); pe_base t(v[1]); scen::edit(t, 16); scen::edit(t, 6); scen::edit(t, 14); scen::edit(t, 18); break; }
        case 7: { c.desc(" chain"); pe_base t(v[0]); pe_base w(t); t = v[1]; w = t; v[0] = w; m[0] = m[1]; break; }
        case 8: { c.desc(" erase0"); v.erase(v.begin()); m.erase(m.begin()); v.push_back(v[0]); const Hist x = m[0]; m.push_back(x); break; }
        case 9: { c.desc(" write"); write_pe(v[0]); write_pe(v[1]); m.clear(); break; }
        }
        c.step();
        if(m.empty()) break;    // writing may move bound imports, so histories with a write end here; C05, C06 look at written images
        for(size_t i = 0; i < v.size(); ++i)
        {
            const Val& r = reference(m[i]);
            MC_REQUIRE(c, fingerprint(v[i]) == r.fp, "value", "image %zu differs from the image with the same history that was never copied", i);
        }
    }
    uint64_t s = 0;
    for(size_t i = 0; i < m.size(); ++i) { s = mc::mix(s, mc::hash(reference(m[i]).fp)); }
    c.state(s);
    c.outcome(s);
    c.trace();
    // each one writes the same file, a copy of it too, and destroying one does not disturb the others
    for(size_t i = 0; i < m.size(); ++i)
    {
        pe_base t(v[i]);
        MC_REQUIRE(c, write_pe(t) == reference(m[i]).file, "written-copy", "a copy of image %zu writes another file", i);
        MC_REQUIRE(c, fingerprint(v[i]) == reference(m[i]).fp, "copy-written", "writing a copy changed image %zu", i);
    }
    if(m.size() >= 2)
    {
        v.pop_back();
        for(size_t i = 0; i < v.size(); ++i) MC_REQUIRE(c, fingerprint(v[i]) == reference(m[i]).fp, "destroyed", "destroying another image changed image %zu", i);
        v[0].get_dos_header().e_cblp ^= 0x55;
        if(v[0].get_dos_header().e_cblp != 0 && v.size() > 1) MC_REQUIRE(c, fingerprint(v[1]) == reference(m[1]).fp, "shared-dos", "DOS headers are shared");
    }
}
// Leaks: the same operations without the cache, counted by the framework
static void image_leaks(mc::Ctx& c)
{
    const int n = c.choose(scen::sources, "source");
    const bool pe64 = c.flip("flavour");
    std::vector<pe_base> v;
    { std::unique_ptr<pe_base> p = scen::source(n, pe64); v.push_back(*p); v.push_back(*scen::source(img::k_debug, !pe64)); }
    c.desc("source %d", n);
    const Bytes a = fingerprint(v[0]), b = fingerprint(v[1]);
    int w[2] = { 0, 1 };
    for(int step = 0; step < 4; ++step)
    {
        const int o = c.choose(7, "operation");
        c.desc(" %d", o);
        switch(o)
        {
        case 0: v[0] = v[1]; w[0] = w[1]; break;
        case 1: v[1] = v[0]; w[1] = w[0]; break;
        case 2: { pe_base& s = v[0]; v[0] = s; break; }
        case 3: v.push_back(pe_base(v[1])); v.pop_back(); v.shrink_to_fit(); break;
        case 4: std::swap(v[0], v[1]); std::swap(w[0], w[1]); break;
        case 5: { pe_base t(v[0]); t = t; v[0] = t; break; }
        case 6: { pe_base* p = new pe_base(v[0]); const pe_base q(*p); delete p; v[0] = q; break; }
        }
        c.step();
        for(int i = 0; i < 2; ++i) MC_REQUIRE(c, fingerprint(v[i]) == (w[i] ? b : a), "value", "image %d has another value", i);
    }
    c.outcome(mc::mix(w[0] * 2 + w[1], mc::hash(a)));
    c.trace();
}

// ---- debug records
struct Dbg
{
    uint32_t tag; int kind; std::string name;
    bool operator==(const Dbg& o) const { return tag == o.tag && kind == o.kind && name == o.name; }
};
static void set_kind(debug_info& d, Dbg& m, int kind, const char* name)
{
    Bytes b;
    m.kind = kind; m.name = name;
    switch(kind)
    {
    case 1: { b = "RSDS" + Bytes(16, 'g'); ref::app32(b, 7); b += name; b += '\0'; d.set_advanced_debug_info(pdb_7_0_info(reinterpret_cast<const pe_win::CV_INFO_PDB70*>(b.data()))); break; }
    case 2: { b = "NB10"; ref::app32(b, 0); ref::app32(b, 0x77); ref::app32(b, 7); b += name; b += '\0'; d.set_advanced_debug_info(pdb_2_0_info(reinterpret_cast<const pe_win::CV_INFO_PDB20*>(b.data()))); break; }
    case 3: { ref::app32(b, 1); const size_t n = strlen(name); ref::app32(b, static_cast<uint32_t>(12 + n + 8)); ref::app32(b, 0); b += name; b.resize(12 + n + 8, 0); d.set_advanced_debug_info(misc_debug_info(reinterpret_cast<const pe_win::image_debug_misc*>(b.data()))); break; }
    case 4: { coff_debug_info ci; coff_debug_info::coff_symbol s; s.set_symbol_name(name); ci.add_symbol(s); ci.add_symbol(s); d.set_advanced_debug_info(ci); break; }
    }
}
static Dbg value(mc::Ctx& c, const debug_info& d)
{
    Dbg r; r.tag = d.get_time_stamp(); r.kind = d.get_advanced_info_type();
    MC_REQUIRE(c, d.get_size_of_data() == r.tag + 1 && d.get_rva_of_raw_data() == r.tag + 2 && d.get_pointer_to_raw_data() == r.tag + 3 && d.get_characteristics() == r.tag + 4 && d.get_type_raw() == r.tag + 5 && d.get_major_version() == r.tag + 6 && d.get_minor_version() == r.tag + 7, "debug-fields", "fields of different records are mixed");
    switch(r.kind)
    {
    case 1: { const pdb_7_0_info i = d.get_advanced_debug_info<pdb_7_0_info>(); MC_REQUIRE(c, i.get_age() == 7, "debug-age", "age"); r.name = i.get_pdb_file_name(); break; }
    case 2: { const pdb_2_0_info i = d.get_advanced_debug_info<pdb_2_0_info>(); MC_REQUIRE(c, i.get_age() == 7 && i.get_signature() == 0x77, "debug-age", "age"); r.name = i.get_pdb_file_name(); break; }
    case 3: r.name = d.get_advanced_debug_info<misc_debug_info>().get_data_ansi(); break;
    case 4: { const coff_debug_info i = d.get_advanced_debug_info<coff_debug_info>(); MC_REQUIRE(c, i.get_symbols().size() == 2, "debug-symbols", "symbols"); r.name = i.get_symbols()[1].get_symbol(); break; }
    }
    return r;
}
static debug_info make_dbg(uint32_t tag)
{
    pe_win::image_debug_directory d;
    memset(&d, 0, sizeof(d));
    d.TimeDateStamp = tag; d.SizeOfData = tag + 1; d.AddressOfRawData = tag + 2; d.PointerToRawData = tag + 3; d.Characteristics = tag + 4; d.Type = tag + 5; d.MajorVersion = static_cast<uint16_t>(tag + 6); d.MinorVersion = static_cast<uint16_t>(tag + 7);
    return debug_info(d);
}
static void debug_records(mc::Ctx& c)
{
    debug_info_list v; std::vector<Dbg> m;
    for(uint32_t i = 0; i < 2; ++i) { v.push_back(make_dbg(100 * (i + 1))); Dbg d = { 100 * (i + 1), 0, "" }; m.push_back(d); }
    set_kind(v[0], m[0], 1 + c.choose(4, "kind"), "first-name-that-is-long-enough-for-the-heap");
    const int depth = mc::tier_pick(4, 5);
    for(int step = 0; step < depth; ++step)
    {
        const int o = c.choose(14, "operation");
        c.desc(" %d", o);
        switch(o)
        {
        case 0: case 1: case 2: case 3: set_kind(v[1], m[1], o + 1, "second"); break;
        case 4: v[0] = v[1]; m[0] = m[1]; break;
        case 5: v[1] = v[0]; m[1] = m[0]; break;
        case 6: { debug_info& s = v[0]; v[0] = s; break; }
        case 7: { const Dbg x = m[1]; v.push_back(debug_info(v[1])); m.push_back(x); break; }
        case 8: v.erase(v.begin()); m.erase(m.begin()); { debug_info t(v[0]); v.push_back(t); const Dbg x = m[0]; m.push_back(x); } break;
        case 9: std::swap(v[0], v[1]); std::swap(m[0], m[1]); break;
        case 10: { debug_info t(v[0]); set_kind(t, *std::unique_ptr<Dbg>(new Dbg(m[0])), 3, "other"); v.insert(v.begin(), t); Dbg x = m[0]; x.kind = 3; x.name = "other"; m.insert(m.begin(), x); break; }
        case 11: { debug_info t; t = v[1]; t = v[0]; v[1] = t; m[1] = m[0]; break; }
        case 12: v[0] = make_dbg(300); m[0].tag = 300; m[0].kind = 0; m[0].name.clear(); break;
        case 13: { debug_info_list w(v); w[0] = w[1]; v.swap(w); m[0] = m[1]; break; }
        }
        c.step();
        uint64_t s = 0;
        for(size_t i = 0; i < v.size(); ++i)
        {
            const Dbg d = value(c, v[i]);
            MC_REQUIRE(c, d == m[i], "debug-value", "record %zu is (%u, kind %d, \"%s\"), should be (%u, kind %d, \"%s\")", i, d.tag, d.kind, d.name.c_str(), m[i].tag, m[i].kind, m[i].name.c_str());
            s = mc::mix(s, mc::mix(d.tag * 8 + d.kind, mc::hash(d.name)));
        }
        c.state(s);
    }
    c.outcome(m.size() * 64 + m[0].kind * 8 + m[1].kind);
    c.trace();
}

// ---- resource trees
struct Node
{
    bool named; std::wstring name; uint32_t id; int kind; Bytes data; uint32_t cp; std::vector<Node> kids;
    Node() : named(false), id(0), kind(0), cp(0) {}
    uint64_t h() const
    {
        uint64_t x = mc::mix(named, mc::mix(id, mc::hash(name.data(), name.size() * sizeof(wchar_t))));
        x = mc::mix(x, mc::mix(kind, mc::mix(cp, mc::hash(data))));
        for(size_t i = 0; i < kids.size(); ++i) x = mc::mix(x, kids[i].h());
        return mc::mix(x, kids.size());
    }
    size_t count() const { size_t n = 1; for(size_t i = 0; i < kids.size(); ++i) n += kids[i].count(); return n; }
};
static bool is_dir(const resource_directory_entry& e) { try { e.get_resource_directory(); return true; } catch(const pe_exception&) { return false; } }
static bool is_data(const resource_directory_entry& e) { try { e.get_data_entry(); return true; } catch(const pe_exception&) { return false; } }
static Node node(const resource_directory_entry& e)
{
    Node n;
    n.named = e.is_named(); n.name = e.get_name(); n.id = e.get_id();
    if(is_data(e)) { n.kind = 1; n.data = e.get_data_entry().get_data(); n.cp = e.get_data_entry().get_codepage(); }
    else if(is_dir(e))
    {
        n.kind = 2;
        const resource_directory::entry_list& l = e.get_resource_directory().get_entry_list();
        for(size_t i = 0; i < l.size(); ++i) n.kids.push_back(node(l[i]));
    }
    return n;
}
static Node leaf(uint32_t id, const Bytes& d) { Node n; n.id = id; n.kind = 1; n.data = d; n.cp = id; return n; }
static void trees(mc::Ctx& c)
{
    resource_directory_entry e[2]; Node m[2];
    e[0].set_id(5); m[0].id = 5;
    e[1].set_name(L"root with a name beyond the small string size"); m[1].named = true; m[1].name = e[1].get_name();
    const int depth = mc::tier_pick(5, 6);
    for(int step = 0; step < depth; ++step)
    {
        const int o = c.choose(15, "operation");
        c.desc(" %d", o);
        switch(o)
        {
        case 0: e[0].add_data_entry(resource_data_entry("payload", 1252)); m[0].kind = 1; m[0].data = "payload"; m[0].cp = 1252; m[0].kids.clear(); break;
        case 1: e[0].add_resource_directory(resource_directory()); m[0].kind = 2; m[0].kids.clear(); m[0].data.clear(); m[0].cp = 0; break;
        case 2: if(m[0].kind == 2) { resource_directory_entry x; x.set_id(9); x.add_data_entry(resource_data_entry("leaf data", 9)); e[0].get_resource_directory().add_resource_directory_entry(x); m[0].kids.push_back(leaf(9, "leaf data")); } break;
        case 3: if(m[0].kind == 2) { e[0].get_resource_directory().add_resource_directory_entry(e[1]); const Node x = m[1]; m[0].kids.push_back(x); } break;
        case 4: e[0] = e[1]; m[0] = m[1]; break;
        case 5: e[1] = e[0]; m[1] = m[0]; break;
        case 6: { resource_directory_entry& s = e[0]; e[0] = s; break; }
        case 7: std::swap(e[0], e[1]); std::swap(m[0], m[1]); break;
        // an entry replaced by a part of itself
        case 8: if(m[0].kind == 2 && !m[0].kids.empty()) { e[0] = e[0].get_resource_directory().get_entry_list()[0]; const Node x = m[0].kids[0]; m[0] = x; } break;
        case 9: if(m[0].kind == 2) e[0].add_resource_directory(e[0].get_resource_directory()); break;
        case 10: if(m[0].kind == 1) e[0].add_data_entry(e[0].get_data_entry()); break;
        case 11: if(m[0].kind == 2 && !m[0].kids.empty() && m[0].kids.back().kind == 2) { e[0].add_resource_directory(e[0].get_resource_directory().get_entry_list().back().get_resource_directory()); const std::vector<Node> x = m[0].kids.back().kids; m[0].kids = x; } break;
        case 12: if(m[0].kind == 1) { e[0].get_data_entry().set_data("changed"); m[0].data = "changed"; } else if(m[0].kind == 2) { e[0].get_resource_directory().clear_resource_directory_entry_list(); m[0].kids.clear(); } break;
        case 13: if(m[0].kind == 2) { resource_directory d(e[0].get_resource_directory()); resource_directory d2; d2 = d; d2 = d2; d.clear_resource_directory_entry_list(); e[1].add_resource_directory(d2); m[1].kind = 2; m[1].kids = m[0].kids; m[1].data.clear(); m[1].cp = 0; } break;
        case 14: if(m[0].kind == 2 && !m[0].kids.empty() && m[0].kids[0].kind == 1) { e[0].add_data_entry(e[0].get_resource_directory().get_entry_list()[0].get_data_entry()); const Node x = m[0].kids[0]; m[0].kids.clear(); m[0].kind = 1; m[0].data = x.data; m[0].cp = x.cp; } break;
        }
        c.step();
        for(int i = 0; i < 2; ++i)
        {
            MC_REQUIRE(c, node(e[i]).h() == m[i].h(), "tree-value", "entry %d differs from the model (kind %d, should be %d)", i, node(e[i]).kind, m[i].kind);
            MC_REQUIRE(c, (m[i].kind == 1) == is_data(e[i]) && (m[i].kind == 2) == is_dir(e[i]), "tree-kind", "entry %d claims another kind of content", i);
        }
        c.state(mc::mix(m[0].h(), m[1].h()));
        if(m[0].count() + m[1].count() > 24) break;
    }
    c.outcome(mc::mix(m[0].h(), m[1].h()));
    c.trace();
}
namespace mc
{
const Part parts[] = {
    { "image-histories", images, 0, 0, "all sequences of 3 (4) of 34 operations (12 edits on either image, assignments, self-assignment, copies, swaps, vector growth and erasure) over two images of different flavour, every image compared after each with one of the same history that was never copied" },
    { "image-leaks", image_leaks, 0, 0, "all sequences of 4 of 7 copy operations from every source, with the number of live allocations compared before and after" },
    { "debug-records", debug_records, 0, 0, "all sequences of 4 (5) of 14 operations over lists of debug records with all kinds of details" },
    { "resource-trees", trees, 0, 0, "all sequences of 5 (6) of 15 operations on two resource directory entries, including replacing an entry by a part of itself" },
};
const int part_count = sizeof(parts) / sizeof(parts[0]);
}
