// C26: rebuilt resource trees read back unchanged.
#include "reb.h"
#include "lay.h"
#include "res.h"
using namespace u;
using res::Node;
const char* const mc::check_id = "C26";

struct Set { uint32_t off; bool hdr, strip; };
static void same(mc::Ctx& c, const char* who, const Node& got, const Node& want)
{
    const Bytes d = res::diff(got, want);
    MC_REQUIRE(c, d.empty(), "tree", "%s%s", who, d.c_str());
}
static Node checked_read(mc::Ctx& c, const ref::Mem& m, uint32_t rva, uint32_t size)
{
    std::vector<res::Used> u;
    try
    {
        const Node n = res::read(m, rva, 0, u);
        const Bytes o = res::overlap(u, rva, rva + size);
        MC_REQUIRE(c, o.empty(), "area", "%s", o.c_str());
        for(size_t i = 0; i < u.size(); ++i) MC_REQUIRE(c, u[i].from % 2 == 0 || u[i].to - u[i].from < 16, "alignment", "a structure at %#x", u[i].from);
        return n;
    }
    catch(const ref::Err& e) { c.fail("unreadable", "written tree: %s", e.what.c_str()); }
}
static void run(mc::Ctx& c, pe_base& pe, size_t at, const Node& in, const Set& st)
{
    Node want = in;
    res::sort(want);
    reb::Snap before = reb::snap(pe);
    resource_directory d = res::to_library(in);
    c.step();
    const image_directory dir = rebuild_resources(pe, d, pe.get_image_sections()[at], st.off, st.hdr, st.strip);
    const uint32_t va = pe.get_image_sections()[at].get_virtual_address(), pos = va + static_cast<uint32_t>(ref::up(st.off, 4));
    MC_REQUIRE(c, dir.get_rva() == pos, "directory", "directory is at %#x, should be at %#x", dir.get_rva(), pos);
    reb::inside_section(c, pe, at, dir);
    reb::untouched(c, pe, before, at, pos - va, pos - va + dir.get_size());
    reb::headers_kept(c, pe, before, st.hdr ? 2 : -1, pos, dir.get_size());
    same(c, "reader: ", checked_read(c, mem_of(pe), pos, dir.get_size()), want);
    if(!st.hdr) { pe.set_directory_rva(2, pos); pe.set_directory_size(2, dir.get_size()); }
    same(c, "tree given: ", res::from_library(c, d), want);
    same(c, "library: ", res::from_library(c, get_resources(pe)), want);
    const Bytes f = write_pe(pe);
    const ref::Img im = ref::Img::parse(f);
    MC_REQUIRE(c, im.h.dirs[2].rva == pos && im.h.dirs[2].size == dir.get_size(), "written-directory", "written directory differs");
    same(c, "reader (written): ", checked_read(c, ref::Mem::map(im), pos, dir.get_size()), want);
    pe_base q(open_pe(f, false, false));
    resource_directory e = get_resources(q);
    same(c, "library (reopened): ", res::from_library(c, e), want);
    rebuild_resources(q, e, q.get_image_sections()[at], st.off, true, st.strip);
    same(c, "library (rebuilt again): ", res::from_library(c, get_resources(q)), want);
    c.outcome(mc::mix(res::hash_of(want), pos));
    c.trace();
}
static Set settings(mc::Ctx& c)
{
    static const uint32_t offs[] = { 0, 3, 0x16, 0x101 };
    Set st;
    st.off = offs[c.dev(4, "offset")]; st.hdr = !c.dev(2, "headers"); st.strip = !c.dev(2, "strip");
    return st;
}
// A tree of the given depth with up to width entries per directory; what differs from plain contents costs deviations
static const wchar_t* const names[] = { L"B", L"A", L"", L"\x416\xffff", L"Ab", L"a" };
static void fill(mc::Ctx& c, Node& n, int depth, int width, int& room)
{
    const int lo = room > 0 ? 0 : 0;
    int k = c.choose(width + 1 - lo, "entries") + lo;
    static const uint32_t ids[] = { 3, 2, 0, 0x7fffffff, 16, 0xffff };
    for(int i = 0; i < k; ++i)
    {
        if(--room < 0) { n.id = 0xdead; return; }
        Node x;
        const int alt = c.dev(9, "key");
        if(alt) { x.named = alt % 2; if(x.named) x.name = names[(alt / 2 + i) % 6]; else x.id = ids[(alt / 2 + i) % 6]; }
        else { x.named = i % 2; if(x.named) x.name = names[i]; else x.id = ids[i]; }
        for(size_t j = 0; j < n.kids.size(); ++j) if(n.kids[j].same_key(x)) { room = -1; return; }
        x.leaf = depth == 0 || c.flip("data");
        if(x.leaf)
        {
            static const uint32_t sizes[] = { 3, 0, 1, 4, 6, 0x201 };
            x.data = img::pattern(c.pickdev(sizes, "bytes"), 5 + room);
            static const uint32_t cps[] = { 0, 1252, 0xffffffffu };
            x.cp = c.pickdev(cps, "code page");
        }
        else
        {
            if(c.dev(2, "attributes")) { x.chars = 0xffffffffu; x.time = 0x5a5a5a5a; x.maj = 0xfffe; x.min = 0x1234; }
            fill(c, x, depth - 1, width, room);
            if(room < 0) return;
        }
        n.kids.push_back(x);
    }
}
static void trees(mc::Ctx& c)
{
    const bool pe64 = c.flip("flavour");
    Node root;
    int room = mc::tier_pick(4, 6);
    fill(c, root, 2, 2, room);
    if(room < 0 || root.kids.empty()) return;
    if(c.dev(2, "root attributes")) { root.chars = 1; root.time = 0xffffffffu; root.maj = 3; root.min = 0xffff; }
    const int lay = c.dev(reb::layouts, "layout");
    const Set st = settings(c);
    std::unique_ptr<pe_base> pe;
    const size_t at = reb::layout(c, pe, lay, pe64);
    c.desc("off=%#x hdr=%d strip=%d %s", st.off, st.hdr, st.strip, res::text(root).c_str());
    run(c, *pe, at, root, st);
}
// All placements of a few trees
static void places(mc::Ctx& c)
{
    const bool pe64 = c.flip("flavour");
    const int lay = c.choose(reb::layouts, "layout");
    Set st;
    st.off = c.choose(mc::tier_pick(24, 64), "offset"); st.hdr = c.flip("headers"); st.strip = c.flip("strip");
    const int tail = c.choose(6, "bytes");
    const bool nul = c.flip("zero bytes");
    Node root, dir, leaf = res::key(7), name = res::key(L"name");
    leaf.leaf = name.leaf = true; leaf.data = Bytes(tail, nul ? '\0' : 'd'); name.data = "abcde";
    dir = res::key(10); dir.kids.push_back(leaf); dir.kids.push_back(name);
    root.kids.push_back(dir); root.kids.push_back(name);
    if(c.flip("deeper")) { Node d = res::key(L"x"); d.kids.push_back(dir); d.kids.push_back(res::key(0)); root.kids.push_back(d); }
    std::unique_ptr<pe_base> pe;
    const size_t at = reb::layout(c, pe, lay, pe64);
    c.desc("off=%#x hdr=%d strip=%d %s", st.off, st.hdr, st.strip, res::text(root).c_str());
    run(c, *pe, at, root, st);
}
// Orders of many entries of both kinds
static void orders(mc::Ctx& c)
{
    const int n = mc::tier_pick(5, 6);
    static const wchar_t* const nm[] = { L"B", L"b", L"Ba" };
    static const uint32_t ids[] = { 5, 0x10000, 4 };
    std::vector<int> left;
    for(int i = 0; i < n; ++i) left.push_back(i);
    Node root, sub = res::key(9);
    for(int i = 0; i < n; ++i)
    {
        const int k = c.choose(static_cast<int>(left.size()), "entry");
        const int e = left[k]; left.erase(left.begin() + k);
        Node x = e % 2 ? res::key(nm[e / 2]) : res::key(ids[e / 2]);
        x.leaf = true; x.data = Bytes(1 + e, static_cast<char>('0' + e));
        sub.kids.push_back(x);
        if(e == 1) { x.leaf = false; x.data.clear(); }
        root.kids.push_back(x);
    }
    if(c.flip("below")) root.kids.push_back(sub);
    std::unique_ptr<pe_base> pe;
    const size_t at = reb::layout(c, pe, 0, c.flip("flavour"));
    const Set st = { 0, true, true };
    c.desc("%s", res::text(root).c_str());
    run(c, *pe, at, root, st);
}
// Sizes up to and past what the structures can say
static void sizes(mc::Ctx& c)
{
    const bool pe64 = c.flip("flavour");
    const int mode = c.choose(10, "what"), lay = c.choose(4, "layout");
    const int k = c.choose(mode < 2 ? mc::tier_pick(140, 1500) : mode == 2 ? 64 : 4, "size");
    Node root; bool expressible = true;
    Node leaf = res::key(1); leaf.leaf = true; leaf.data = "tail"; leaf.cp = 3;
    if(mode == 0) { leaf.data = img::pattern(k * (lay ? 1 : 53), 3); root.kids.push_back(leaf); Node l2 = leaf; l2.id = 2; l2.data = "z"; root.kids.push_back(l2); }
    if(mode == 1) { for(int i = 0; i < k; ++i) { Node x = leaf; if(i % 3) { x.named = true; x.name = std::wstring(1 + i % 5, L'n') + std::to_wstring(i); x.id = 0; } else x.id = i; x.data = Bytes(i % 7, 'x'); root.kids.push_back(x); } if(!k) expressible = false; }
    if(mode == 2) { root.kids.push_back(leaf); for(int i = 1; i < k + 1; ++i) { Node d = res::key(i); d.kids.swap(root.kids); d.time = i; root.kids.push_back(d); root.kids.push_back(res::key(L"e")); root.kids.back().leaf = true; } }
    static const uint32_t lens[] = { 255, 32768, 65535, 65536 };
    if(mode == 3) { leaf.named = true; leaf.id = 0; leaf.name = std::wstring(lens[k], L'N'); root.kids.push_back(leaf); expressible = lens[k] <= 0xffff; }
    static const uint32_t ids[] = { 0x7fffffff, 0x80000000u, 0x80000001u, 0xffffffffu };
    if(mode == 4) { Node d = res::key(3); leaf.id = ids[k]; d.kids.push_back(leaf); root.kids.push_back(d); expressible = !k; }
    if(mode == 5) { static const uint32_t n[] = { 1000, 65535, 65536, 65537 }; if(lay) return; leaf.data.clear(); for(uint32_t i = 0; i < n[k]; ++i) { leaf.id = i; root.kids.push_back(leaf); } expressible = n[k] <= 0xffff; }
    if(mode == 6) { static const wchar_t* const bad[] = { L"x", L"\x10000", L"a\x1f600z", L"\x10ffff" }; leaf.named = true; leaf.id = 0; leaf.name = bad[k]; root.kids.push_back(leaf); expressible = !k; }
    if(mode == 7) { if(lay) return; static const uint32_t n[] = { 20000, 65535, 65536, 65536 }; for(uint32_t i = 0; i < n[k]; ++i) { Node x = leaf; x.data.clear(); x.named = true; x.id = 0; x.name = std::to_wstring(i); root.kids.push_back(x); } if(k == 3) { root.kids.pop_back(); root.kids.push_back(leaf); } expressible = k != 2; }
    if(mode >= 8)       // many directories in a directory, in the root or below, by number or by name
    {
        if(lay) return;
        static const uint32_t n[] = { 4096, 8191, 8192, 8300 };
        Node wide = res::key(7);
        for(uint32_t i = 0; i < n[k]; ++i)
        {
            Node x = res::key(i + 3); x.time = i;
            if(mode == 9 && i % 3) { x.named = true; x.id = 0; x.name = L"d" + std::to_wstring(i); }
            leaf.id = i; leaf.data = Bytes(1, static_cast<char>('a' + i % 26));
            x.kids.push_back(leaf); wide.kids.push_back(x);
        }
        if(mode == 8) root.kids = wide.kids; else { root.kids.push_back(leaf); root.kids.push_back(wide); }
    }
    std::unique_ptr<pe_base> pe;
    const int lays[] = { 0, 1, 3, reb::big_dirty };
    const size_t at = reb::layout(c, pe, lays[lay], pe64);
    c.desc("mode %d size %d", mode, k);
    const Set st = { 0, true, true };
    const Bytes fp = fingerprint(*pe);
    try { run(c, *pe, at, root, st); MC_REQUIRE(c, expressible, "not-refused", "a tree that cannot be expressed is not refused"); }
    catch(const pe_exception& x)
    {
        reb::unchanged(c, *pe, fp, "the tree");
        MC_REQUIRE(c, !expressible || (lay == 1 && x.get_id() == pe_exception::insufficient_space), "refused", "refused: %s", x.what());
        c.outcome(mc::mix(mode, k) + lay);
    }
}
// Trees laid out by others: directories, names, data entries and data in any order, names and data shared
static void foreign(mc::Ctx& c)
{
    using lay::Piece;
    const bool pe64 = c.flip("PE+");
    lay::Lay l(pe64, c.choose(lay::places, "place"));
    const int shape = c.choose(5, "shape");
    Node leaf; leaf.leaf = true; leaf.cp = 0x4e4; leaf.data = "12345";
    Node root; root.chars = 1; root.time = 2; root.maj = 3; root.min = 4;
    Node a = leaf; a.named = true; a.name = L"N\xffff"; Node b = leaf; b.id = 6; b.data = shape == 1 ? "" : "xy"; Node e = leaf; e.id = 0x409; e.cp = 0;
    Node mid = res::key(16); mid.time = 77; mid.kids.push_back(e);
    Piece d0(4), nm(2), ea(4), eb(4), da, db;
    if(shape == 4) { a.name = L""; }
    res::put_name(nm.b, a.name);
    const bool deep = shape >= 2;
    // pieces: 0 root, 1 name, 2 data entry a, 3 data entry b, 4 data a, 5 data b, 6 directory, 7 data entry of it (data a shared)
    d0.v(1, 4); d0.v(2, 4); d0.v(3, 2); d0.v(4, 2); d0.v(1, 2); d0.v(deep ? 2 : 1, 2);
    // offsets within the tree are relative to the root, which is only known after layout: patched below
    d0.v(1, 4); d0.v(1, 4); d0.v(b.id, 4); d0.v(1, 4); if(deep) { d0.v(16, 4); d0.v(1, 4); }
    l.add(d0); l.add(nm);
    ea.ref_(4); ea.v(a.data.size(), 4); ea.v(a.cp, 4); ea.v(0, 4);
    eb.ref_(5); eb.v(b.data.size(), 4); eb.v(b.cp, 4); eb.v(0, 4);
    da.b = a.data; db.b = b.data;
    l.add(ea); l.add(eb); l.add(da); l.add(db);
    if(deep) { Piece d1(4), ee(4); d1.v(0, 4); d1.v(77, 4); d1.v(0, 4); d1.v(0, 2); d1.v(1, 2); d1.v(e.id, 4); d1.v(1, 4); ee.ref_(4); ee.v(e.data.size(), 4); ee.v(e.cp, 4); ee.v(0, 4); l.add(d1); l.add(ee); }
    if(!l.build(c, 2, 0x10, 0)) return;
    const uint32_t r = l.at[0];
    for(size_t i = 1; i < l.at.size(); ++i) if(l.at[i] < r) return;     // offsets are unsigned
    const size_t f0 = l.fileoff + (r - l.base);
    Bytes& f = l.file;
    struct P { static void p(Bytes& f, size_t o, uint32_t v) { ref::put32(f, o, v); } };
    P::p(f, f0 + 16, 0x80000000u | (l.at[1] - r)); P::p(f, f0 + 20, l.at[2] - r); P::p(f, f0 + 28, l.at[3] - r);
    root.kids.push_back(a); root.kids.push_back(b);
    if(deep) { P::p(f, f0 + 36, 0x80000000u | (l.at[6] - r)); P::p(f, l.fileoff + (l.at[6] - l.base) + 20, l.at[7] - r); root.kids.push_back(mid); }
    c.desc("shape %d", shape);
    pe_base pe(open_pe(f, false, false));
    try { same(c, "own reader: ", res::read(mem_of(pe), r), root); } catch(const ref::Err& x) { c.fail("own", "%s", x.what.c_str()); }
    c.step();
    resource_directory d = get_resources(pe);
    same(c, "library: ", res::from_library(c, d), root);
    section& s = add_sec(pe, "rsrc", Bytes(1, 'r'));
    rebuild_resources(pe, d, s);
    same(c, "library (rebuilt): ", res::from_library(c, get_resources(pe)), root);
    same(c, "reader (rebuilt): ", res::read(mem_of(pe), pe.get_directory_rva(2)), root);
    c.outcome(mc::mix(mc::hash(f), shape));
    c.trace();
}
namespace mc
{
const Part parts[] = {
    { "trees", trees, 2, 2, "all trees of up to 3 levels, 2 entries per directory and 4 (6) entries in all, with up to 2 changes of keys, data, code pages, attributes, layouts, offsets and settings; read by a loader-style reader and by the library, before and after writing, and rebuilt once more" },
    { "places", places, 0, 0, "every offset up to 24 (64) in 9 layouts with all settings and data sizes" },
    { "orders", orders, 0, 0, "all orders of 5 (6) entries of both kinds, in the root and below" },
    { "sizes", sizes, 0, 0, "data sizes, entry counts, depths, names, identifiers up to and past what can be expressed; outcome: tree read back, or refused with nothing changed" },
    { "foreign", foreign, 2, 3, "trees laid out by an independent encoder with pieces in any order and gaps, shared data, at section ends and in virtual data" },
};
const int part_count = sizeof(parts) / sizeof(parts[0]);
}
