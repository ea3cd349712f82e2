// C29: icon and cursor groups survive writing, editing and reading.
#include "reb.h"
#include "res.h"
using namespace u;
using res::Node;
const char* const mc::check_id = "C29";

struct Pic { uint32_t w, h, colours, reserved, a, b; Bytes data; };           // a, b: planes and depth of icons, hotspot of cursors
typedef std::vector<Pic> Pics;
struct Key { bool named; uint32_t which, lang; };
static const wchar_t* const names[] = { L"A", L"", L"a", L"MAINICON", L"0", L"#65537" };
static const uint32_t ids[] = { 1, 0, 65535, 2, 0x10000, 0xffffffffu };
static std::wstring name_of(const Key& k) { return names[k.which]; }
static uint32_t id_of(const Key& k) { return ids[k.which]; }
static bool operator==(const Key& a, const Key& b) { return a.named == b.named && a.which == b.which && a.lang == b.lang; }

// layout: 1 pictures in reverse order, 2 gaps, 3 every picture at the same place (equal sizes), 4 trailing bytes
static Bytes file_of(bool cursor, const Pics& p, int layout = 0, uint32_t reserved = 0)
{
    Bytes f, body;
    ref::app16(f, reserved); ref::app16(f, cursor ? 2 : 1); ref::app16(f, static_cast<uint32_t>(p.size()));
    std::vector<uint32_t> at(p.size());
    const uint32_t head = static_cast<uint32_t>(6 + 16 * p.size());
    for(size_t k = 0; k < p.size(); ++k)
    {
        const size_t i = layout == 1 ? p.size() - 1 - k : k;
        if(layout == 2) body += "gap";
        if(layout == 3 && k && p[i].data == p[0].data) { at[i] = at[0]; continue; }
        at[i] = head + static_cast<uint32_t>(body.size());
        body += p[i].data;
    }
    for(size_t i = 0; i < p.size(); ++i)
    {
        f += static_cast<char>(p[i].w); f += static_cast<char>(p[i].h); f += static_cast<char>(p[i].colours); f += static_cast<char>(p[i].reserved);
        ref::app16(f, p[i].a); ref::app16(f, p[i].b); ref::app32(f, static_cast<uint32_t>(p[i].data.size())); ref::app32(f, at[i]);
    }
    return f + body + (layout == 4 ? "trailing" : "");
}
static uint32_t byte(const Bytes& b, size_t at) { return static_cast<uint8_t>(b.at(at)); }
static void same_file(mc::Ctx& c, const char* how, bool cursor, const Bytes& f, const Pics& p)
{
    try
    {
        MC_REQUIRE(c, ref::get16(f, 0) == 0 && ref::get16(f, 2) == (cursor ? 2u : 1u), "header", "%s: header", how);
        MC_REQUIRE(c, ref::get16(f, 4) == p.size(), "count", "%s: %u pictures instead of %zu", how, ref::get16(f, 4), p.size());
        size_t total = 6 + 16 * p.size();
        for(size_t i = 0; i < p.size(); ++i)
        {
            const uint32_t e = static_cast<uint32_t>(6 + 16 * i);
            MC_REQUIRE(c, byte(f, e) == p[i].w && byte(f, e + 1) == p[i].h, "size", "%s: picture %zu is %ux%u instead of %ux%u", how, i, byte(f, e), byte(f, e + 1), p[i].w, p[i].h);
            MC_REQUIRE(c, cursor || (byte(f, e + 2) == p[i].colours && byte(f, e + 3) == p[i].reserved), "colours", "%s: colours of picture %zu", how, i);
            MC_REQUIRE(c, ref::get16(f, e + 4) == p[i].a && ref::get16(f, e + 6) == p[i].b, "attributes", "%s: picture %zu has %u, %u instead of %u, %u", how, i, ref::get16(f, e + 4), ref::get16(f, e + 6), p[i].a, p[i].b);
            const uint32_t n = ref::get32(f, e + 8), at = ref::get32(f, e + 12);
            MC_REQUIRE(c, n == p[i].data.size() && at <= f.size() && n <= f.size() - at && f.substr(at, n) == p[i].data, "picture", "%s: picture %zu differs", how, i);
            total += n;
        }
        MC_REQUIRE(c, f.size() == total, "length", "%s: %zu bytes instead of %zu", how, f.size(), total);
    }
    catch(const ref::Err& e) { c.fail("file", "%s: %s", how, e.what.c_str()); }
}
typedef resource_cursor_icon_writer W;
static void add(W& w, bool cursor, const Bytes& f, const Key& k, int mode, uint32_t cp = 0, uint32_t time = 0)
{
    const W::icon_place_mode m = mode ? W::icon_place_free_ids : W::icon_place_after_max_icon_id;
    if(cursor) { if(k.named) w.add_cursor(f, name_of(k), k.lang, m, cp, time); else w.add_cursor(f, id_of(k), k.lang, m, cp, time); }
    else { if(k.named) w.add_icon(f, name_of(k), k.lang, m, cp, time); else w.add_icon(f, id_of(k), k.lang, m, cp, time); }
}
static bool remove(W& w, bool cursor, const Key& k)
{
    if(cursor) return k.named ? w.remove_cursor_group(name_of(k), k.lang) : w.remove_cursor_group(id_of(k), k.lang);
    return k.named ? w.remove_icon_group(name_of(k), k.lang) : w.remove_icon_group(id_of(k), k.lang);
}
static Bytes by_lang(const resource_directory& d, bool cursor, const Key& k)
{
    const pe_resource_viewer v(d); const resource_cursor_icon_reader r(v);
    if(cursor) return k.named ? r.get_cursor_by_name(k.lang, name_of(k)) : r.get_cursor_by_id_lang(k.lang, id_of(k));
    return k.named ? r.get_icon_by_name(k.lang, name_of(k)) : r.get_icon_by_id_lang(k.lang, id_of(k));
}
static Bytes by_index(const resource_directory& d, bool cursor, const Key& k, uint32_t i)
{
    const pe_resource_viewer v(d); const resource_cursor_icon_reader r(v);
    if(cursor) return k.named ? r.get_cursor_by_name(name_of(k), i) : r.get_cursor_by_id(id_of(k), i);
    return k.named ? r.get_icon_by_name(name_of(k), i) : r.get_icon_by_id(id_of(k), i);
}
static Bytes single(const resource_directory& d, bool cursor, uint32_t lang, uint32_t id, bool index, uint32_t i)
{
    const pe_resource_viewer v(d); const resource_cursor_icon_reader r(v);
    if(cursor) return index ? r.get_single_cursor_by_id(id, i) : r.get_single_cursor_by_id_lang(lang, id);
    return index ? r.get_single_icon_by_id(id, i) : r.get_single_icon_by_id_lang(lang, id);
}
// ---------------------------------------------------------------- the tree as a flat map
typedef std::map<Bytes, Bytes> Flat;
static void flatten(const Node& n, const Bytes& at, Flat& f)
{
    if(n.leaf) { f[at] = n.data + " cp" + std::to_string(n.cp); return; }
    for(size_t i = 0; i < n.kids.size(); ++i) flatten(n.kids[i], at + "/" + res::key_text(n.kids[i]), f);
}
static Flat flat(mc::Ctx& c, const resource_directory& d) { Flat f; flatten(res::from_library(c, d, false), "", f); return f; }
static Bytes group_path(bool cursor, const Key& k) { return Bytes(cursor ? "/#12/" : "/#14/") + res::key_text(k.named ? res::key(name_of(k)) : res::key(id_of(k))) + "/#" + std::to_string(k.lang); }
static Bytes pic_path(bool cursor, uint32_t id, uint32_t lang) { return Bytes(cursor ? "/#1/#" : "/#3/#") + std::to_string(id) + "/#" + std::to_string(lang); }
static Bytes stored_pic(bool cursor, const Pic& p) { Bytes b; if(cursor) { ref::app16(b, p.a); ref::app16(b, p.b); } return b + p.data; }
static std::vector<uint32_t> numbers(const Flat& f, bool cursor, const Key& k)
{
    std::vector<uint32_t> r;
    const Flat::const_iterator i = f.find(group_path(cursor, k));
    if(i == f.end()) return r;
    for(uint32_t j = 0, n = ref::get16(i->second, 4); j < n; ++j) r.push_back(ref::get16(i->second, 6 + 14 * j + 12));
    return r;
}
struct Group { Key key; Pics pics; std::vector<uint32_t> nums; uint32_t cp; };
struct Model { std::vector<Group> groups[2]; Flat others; std::set<uint32_t> used[2]; };
static Group* find(Model& m, bool cursor, const Key& k) { for(size_t i = 0; i < m.groups[cursor].size(); ++i) if(m.groups[cursor][i].key == k) return &m.groups[cursor][i]; return 0; }
// The numbers the placing mode promises, or nothing when there are not enough
static std::vector<uint32_t> place(const std::set<uint32_t>& used, int mode, size_t n)
{
    std::vector<uint32_t> r;
    uint64_t from = 1;
    if(!mode && !used.empty()) from = static_cast<uint64_t>(*used.rbegin()) + 1;
    for(uint64_t i = from; i <= 65535 && r.size() < n; ++i) if(!used.count(static_cast<uint32_t>(i))) r.push_back(static_cast<uint32_t>(i));
    if(r.size() < n) r.clear();
    return r;
}
static void compare(mc::Ctx& c, Model& m, const resource_directory& d, const char* when, bool read)
{
    const Flat f = flat(c, d);
    Flat want = m.others;
    for(int cur = 0; cur < 2; ++cur)
        for(size_t g = 0; g < m.groups[cur].size(); ++g)
        {
            Group& x = m.groups[cur][g];
            const Bytes path = group_path(cur, x.key);
            MC_REQUIRE(c, f.count(path), "group-missing", "%s: group %s is missing", when, path.c_str());
            want[path] = f.find(path)->second;
            const Bytes cp = " cp" + std::to_string(x.cp);
            MC_REQUIRE(c, want[path].size() == 6 + 14 * x.pics.size() + cp.size() && want[path].substr(want[path].size() - cp.size()) == cp, "group", "%s: length or code page of group %s", when, path.c_str());
            const std::vector<uint32_t> nums = numbers(f, cur, x.key);
            MC_REQUIRE(c, nums == x.nums, "numbers", "%s: group %s holds %zu pictures with first number %u, should be %zu and %u", when, path.c_str(), nums.size(), nums.empty() ? 0 : nums[0], x.nums.size(), x.nums.empty() ? 0 : x.nums[0]);
            for(size_t i = 0; i < x.pics.size(); ++i) want[pic_path(cur, nums[i], x.key.lang)] = stored_pic(cur, x.pics[i]) + cp;
            if(!read) continue;
            same_file(c, "by language", cur, by_lang(d, cur, x.key), x.pics);
            for(size_t i = 0; i < x.pics.size(); ++i)
            {
                same_file(c, "single picture", cur, single(d, cur, x.key.lang, nums[i], false, 0), Pics(1, x.pics[i]));
                same_file(c, "single picture by index", cur, single(d, cur, x.key.lang, nums[i], true, 0), Pics(1, x.pics[i]));
            }
            const pe_resource_viewer v(d);
            const pe_resource_viewer::resource_type t = cur ? pe_resource_viewer::resource_cursor_group : pe_resource_viewer::resource_icon_group;
            const std::vector<uint32_t> l = x.key.named ? v.list_resource_languages(t, name_of(x.key)) : v.list_resource_languages(t, id_of(x.key));
            for(size_t i = 0; i < l.size(); ++i) if(l[i] == x.key.lang) same_file(c, "by index", cur, by_index(d, cur, x.key, static_cast<uint32_t>(i)), x.pics);
        }
    for(Flat::const_iterator i = want.begin(); i != want.end(); ++i)
    {
        MC_REQUIRE(c, f.count(i->first), "missing", "%s: %s is missing", when, i->first.c_str());
        MC_REQUIRE(c, f.find(i->first)->second == i->second, "data", "%s: %s has other data", when, i->first.c_str());
    }
    for(Flat::const_iterator i = f.begin(); i != f.end(); ++i) MC_REQUIRE(c, want.count(i->first), "extra", "%s: %s should not be there", when, i->first.c_str());
}
static bool do_add(mc::Ctx& c, Model& m, const resource_directory& root, W& w, bool cursor, const Pics& p, const Key& k, int mode, uint32_t cp)
{
    Group* g = find(m, cursor, k);
    const std::vector<uint32_t> nums = place(m.used[cursor], mode, p.size());
    const bool possible = !nums.empty() && p.size() + (g ? g->pics.size() : 0) <= 65535;
    const Flat before = possible ? Flat() : flat(c, root);
    bool ok = true;
    c.step();
    try { add(w, cursor, file_of(cursor, p), k, mode, cp, 8); } catch(const pe_exception&) { ok = false; }
    MC_REQUIRE(c, ok == possible, "refusal", "%zu pictures %s", p.size(), ok ? "accepted" : "refused");
    if(!ok) { MC_REQUIRE(c, flat(c, root) == before, "refused-changed", "refused but changed"); return false; }
    if(!g) { Group x; x.key = k; x.cp = cp; m.groups[cursor].push_back(x); g = &m.groups[cursor].back(); }
    g->pics.insert(g->pics.end(), p.begin(), p.end());
    g->nums.insert(g->nums.end(), nums.begin(), nums.end());
    m.used[cursor].insert(nums.begin(), nums.end());
    return true;
}
static bool do_remove(mc::Ctx& c, Model& m, const resource_directory& root, W& w, bool cursor, const Key& k)
{
    Group* g = find(m, cursor, k);
    bool ok = false;
    c.step();
    try { ok = remove(w, cursor, k); } catch(const pe_exception&) {}
    MC_REQUIRE(c, ok == (g != 0), "removed", "removal reported %d", ok);
    if(!g) return false;
    for(size_t i = 0; i < g->nums.size(); ++i)
    {
        const uint32_t n = g->nums[i];
        bool other = false;                                            // the same number in another language stays in use
        for(Flat::const_iterator f = m.others.begin(); f != m.others.end(); ++f) if(f->first.find(Bytes(cursor ? "/#1/#" : "/#3/#") + std::to_string(n) + "/") == 0) other = true;
        if(!other) m.used[cursor].erase(n);
    }
    m.groups[cursor].erase(m.groups[cursor].begin() + (g - &m.groups[cursor][0]));
    (void)root;
    return true;
}
static uint64_t state_of(const Model& m)
{
    uint64_t h = 1;
    for(int cur = 0; cur < 2; ++cur)
        for(size_t g = 0; g < m.groups[cur].size(); ++g)
        {
            const Group& x = m.groups[cur][g];
            h = mc::mix(h, mc::hash(group_path(cur, x.key)));
            for(size_t i = 0; i < x.nums.size(); ++i) h = mc::mix(h, mc::mix(x.nums[i], mc::hash(x.pics[i].data)));
        }
    return h;
}
static resource_directory through_image(const resource_directory& d, bool pe64)
{
    pe_base pe(fresh(pe64));
    section& s = add_sec(pe, "rsrc", Bytes(1, 'r'));
    resource_directory copy(d);
    rebuild_resources(pe, copy, s);
    return get_resources(open_pe(write_pe(pe), false, false));
}
static Pic pic(uint32_t seed) { Pic p = { 16 + seed, 32 + seed, 16, 0, 1 + seed, 4 + seed, img::pattern(1 + seed % 5, static_cast<uint8_t>(seed)) }; return p; }

// ---------------------------------------------------------------- one file, every attribute
static void files(mc::Ctx& c)
{
    const bool cursor = c.flip("cursor");
    Pics p(1 + c.choose(3, "pictures"));
    static const uint32_t bytes[] = { 16, 0, 1, 127, 128, 129, 255 }, words[] = { 3, 0, 0x100, 0x7fff, 0x8000, 0xffff };
    for(size_t i = 0; i < p.size(); ++i)
    {
        p[i].w = c.pickdev(bytes, "width"); p[i].h = c.pickdev(bytes, "height"); p[i].colours = c.pickdev(bytes, "colours"); p[i].reserved = c.dev(2, "reserved");
        p[i].a = c.pickdev(words, "planes or hotspot"); p[i].b = c.pickdev(words, "depth or hotspot");
        p[i].data = img::pattern(1 + c.dev(5, "length") * (c.dev(2, "long") ? 300 : 1), static_cast<uint8_t>(c.dev(2, "equal pictures") ? 7 : 7 + i));
    }
    const int layout = c.choose(5, "layout");
    const Key k = { c.flip("named"), static_cast<uint32_t>(c.dev(4, "which")), c.dev(2, "language") ? 0x409u : 0u };
    const int mode = c.dev(2, "mode");
    Model m;
    resource_directory root;
    pe_resource_manager rm(root);
    W w(rm);
    c.step();
    c.desc("%s, %zu pictures, layout %d", cursor ? "cursor" : "icon", p.size(), layout);
    add(w, cursor, file_of(cursor, p, layout), k, mode, 1252, 6);
    Group g; g.key = k; g.pics = p; g.cp = 1252;
    for(size_t i = 0; i < p.size(); ++i) g.nums.push_back(static_cast<uint32_t>(i + 1));
    m.groups[cursor].push_back(g);
    compare(c, m, root, "in memory", true);
    if(c.devs_left() || mc::thorough()) { root = through_image(root, cursor); compare(c, m, root, "in an image", true); }
    // what is read is written again identically
    const Bytes f = by_lang(root, cursor, k);
    resource_directory again;
    pe_resource_manager rm2(again);
    W w2(rm2);
    add(w2, cursor, f, k, mode, 1252, 6);
    MC_REQUIRE(c, by_lang(again, cursor, k) == f, "rewrite", "what was read is read differently after writing it again");
    c.outcome(mc::hash(f));
}
static void dimensions(mc::Ctx& c)
{
    const bool cursor = c.flip("cursor");
    Pic p = pic(1);
    const int v = c.choose(256, "value");
    const int which = c.choose(5, "field");
    (which == 0 ? p.w : which == 1 ? p.h : which == 2 ? p.colours : which == 3 ? p.a : p.b) = which < 3 ? v : v << 8 | (v ^ 0x5a);
    Model m; Group g;
    const Key k = { false, 0, 0 };
    resource_directory root; pe_resource_manager rm(root); W w(rm);
    do_add(c, m, root, w, cursor, Pics(1, p), k, 0, 0);
    compare(c, m, root, "in memory", true);
    c.outcome(mc::mix(which, v));
}
// ---------------------------------------------------------------- histories
static void run(mc::Ctx& c, int depth, bool both, bool image)
{
    static const Key keys[] = { { false, 0, 0 }, { true, 0, 0x409 }, { false, 0, 0x409 } };
    Model m;
    resource_directory root;
    pe_resource_manager rm(root);
    W w(rm);
    rm.add_resource("bitmap", pe_resource_viewer::resource_bitmap, 1, 0, 0, 0); m.others["/#2/#1/#0"] = "bitmap cp0";
    const bool first = c.flip("cursor");
    if(c.flip("numbers taken"))
    {
        static const uint32_t taken[] = { 2, 5 };
        for(int i = 0; i < 2; ++i) for(int cur = 0; cur < 2; ++cur) { rm.add_resource("taken", cur ? pe_resource_viewer::resource_cursor : pe_resource_viewer::resource_icon, taken[i], 0x409 * i, 7, 0); m.others[pic_path(cur, taken[i], 0x409 * i)] = "taken cp7"; m.used[cur].insert(taken[i]); }
    }
    for(int i = 0; i < depth; ++i)
    {
        const bool cursor = both && c.choose(2, "kind") ? !first : first;
        const int op = c.choose(15, "operation");
        if(op < 12)
        {
            Pics p;
            for(int k = 0; k <= op / 6; ++k) p.push_back(pic(i * 4 + k));
            c.desc("add %d to %d, mode %d", op / 6 + 1, op % 3, op / 3 % 2);
            do_add(c, m, root, w, cursor, p, keys[op % 3], op / 3 % 2, i);
        }
        else { c.desc("remove %d", op - 12); do_remove(c, m, root, w, cursor, keys[op - 12]); }
        c.state(state_of(m));
    }
    compare(c, m, root, "after editing", true);
    if(image)
    {
        root = through_image(root, first);
        compare(c, m, root, "after rereading", true);
        pe_resource_manager rm2(root);
        W w2(rm2);
        do_add(c, m, root, w2, first, Pics(2, pic(77)), keys[1], 1, 0);
        do_remove(c, m, root, w2, first, keys[0]);
        root = through_image(root, !first);
        compare(c, m, root, "after editing what was reread", true);
    }
    c.outcome(state_of(m));
    c.trace();
}
static void histories(mc::Ctx& c) { run(c, 1 + c.choose(mc::tier_pick(4, 5), "length"), false, false); }
static void mixed(mc::Ctx& c) { run(c, mc::tier_pick(2, 3), true, true); }

// ---------------------------------------------------------------- numbering
static void numbering(mc::Ctx& c)
{
    const bool cursor = c.flip("cursor");
    const int bits = mc::tier_pick(7, 9);
    const int taken = c.choose(1 << bits, "taken numbers");
    static const uint32_t high[] = { 0, 0xffff, 0xfffd, 0x10000, 0x10003, 70000, 0xffffffffu };
    const int h = c.choose(7, "high number");
    Model m;
    resource_directory root;
    pe_resource_manager rm(root);
    W w(rm);
    for(int i = 0; i <= bits; ++i)
    {
        const uint32_t id = i < bits ? i : high[h];
        if(i < bits ? !(taken >> i & 1) : !h) continue;
        rm.add_resource(Bytes(1, static_cast<char>(i)), cursor ? pe_resource_viewer::resource_cursor : pe_resource_viewer::resource_icon, id, i & 1 ? 0x409 : 0, 3, 0);
        m.others[pic_path(cursor, id, i & 1 ? 0x409 : 0)] = Bytes(1, static_cast<char>(i)) + " cp3";
        m.used[cursor].insert(id);
    }
    const int mode = c.choose(2, "mode");
    Pics p;
    for(int i = 0, n = 1 + c.choose(4, "pictures"); i < n; ++i) p.push_back(pic(i));
    const Key k = { false, 0, 0 }, k2 = { true, 0, 0 };
    c.desc("taken %#x and %#x, %zu pictures, mode %d", taken, h ? high[h] : 0, p.size(), mode);
    do_add(c, m, root, w, cursor, p, k, mode, 0);
    do_add(c, m, root, w, cursor, Pics(1, pic(9)), k2, c.choose(2, "next mode"), 0);
    compare(c, m, root, "numbered", true);
    c.outcome(state_of(m));
}
// Large groups, and numbers that run out
static void limits(mc::Ctx& c)
{
    static const uint32_t counts[] = { 65535, 65534, 65000, 32768, 32767, 300 };
    const bool cursor = c.flip("cursor");
    const uint32_t n = c.pick(counts, "pictures"), more = c.choose(3, "more");
    const int mode = c.choose(2, "mode");
    Pic one = pic(2);
    Model m;
    resource_directory root;
    pe_resource_manager rm(root);
    W w(rm);
    if(c.flip("one taken")) { rm.add_resource("x", cursor ? pe_resource_viewer::resource_cursor : pe_resource_viewer::resource_icon, 100, 0, 0, 0); m.others[pic_path(cursor, 100, 0)] = "x cp0"; m.used[cursor].insert(100); }
    const bool named = c.flip("named");
    const Key k = { named, 0, 0 }, k2 = { !named, 0, 0 };
    c.desc("%u pictures", n);
    // one file with all of them is written only up to a few thousand: the numbers are looked up one by one
    const uint32_t in_file = n > 2000 && !mc::thorough() ? 0 : n > 33000 ? 0 : n;
    if(in_file) do_add(c, m, root, w, cursor, Pics(in_file, one), k, mode, 0);
    else
    {
        // the group and its pictures as they would have been written
        Node r; Node gt = res::key(cursor ? 12 : 14), gn = named ? res::key(std::wstring(L"A")) : res::key(1), gl = res::key(0), pt = res::key(cursor ? 1 : 3);
        ref::app16(gl.data, 0); ref::app16(gl.data, cursor ? 2 : 1); ref::app16(gl.data, n);
        Group g; g.key = k; g.cp = 0;
        for(uint32_t i = 0; i < n; ++i)
        {
            if(cursor) { ref::app16(gl.data, one.w); ref::app16(gl.data, one.h * 2); ref::app32(gl.data, 0); }
            else { gl.data += static_cast<char>(one.w); gl.data += static_cast<char>(one.h); gl.data += static_cast<char>(one.colours); gl.data += '\0'; ref::app16(gl.data, one.a); ref::app16(gl.data, one.b); }
            ref::app32(gl.data, static_cast<uint32_t>(one.data.size() + (cursor ? 4 : 0))); ref::app16(gl.data, i % 20 + 1);
        }
        gl.leaf = true; gn.kids.push_back(gl); gt.kids.push_back(gn); r.kids.push_back(gt);
        for(uint32_t i = 1; i <= 20; ++i) { Node x = res::key(i), l = res::key(0); l.leaf = true; l.data = stored_pic(cursor, one); x.kids.push_back(l); pt.kids.push_back(x); }
        r.kids.push_back(pt);
        root = res::to_library(r);
        m = Model();
        for(uint32_t i = 0; i < n; ++i) { g.pics.push_back(one); g.nums.push_back(i % 20 + 1); m.used[cursor].insert(i % 20 + 1); }
        m.groups[cursor].push_back(g);
    }
    if(more) do_add(c, m, root, w, cursor, Pics(more, pic(5)), k, mode, 0);
    do_add(c, m, root, w, cursor, Pics(more + 1, pic(6)), k2, 1 - mode, 0);
    compare(c, m, root, "at the limit", n <= 300);
    same_file(c, "by index", cursor, by_index(root, cursor, k, 0), find(m, cursor, k)->pics);
    same_file(c, "by language", cursor, by_lang(root, cursor, k), find(m, cursor, k)->pics);
    c.outcome(state_of(m));
}
// Groups of many pictures, written, removed and written again
static void large(mc::Ctx& c)
{
    static const uint32_t counts[] = { 1, 127, 128, 255, 256, 257, 300, 513 };
    const bool cursor = c.flip("cursor"), named = c.flip("named"), image = c.flip("image");
    const uint32_t n = c.pick(counts, "pictures"), first = c.choose(2, "first group");
    const int mode = c.choose(2, "mode");
    Model m;
    resource_directory root;
    pe_resource_manager rm(root);
    W w(rm);
    const Key k = { named, 0, 0 }, k2 = { !named, 0, 0 };
    Pics many; for(uint32_t i = 0; i < n; ++i) many.push_back(pic(i % 100));
    c.desc("%s of %u pictures", cursor ? "cursor" : "icon", n);
    if(first) do_add(c, m, root, w, cursor, Pics(2, pic(3)), k2, mode, 0);
    do_add(c, m, root, w, cursor, many, k, mode, 1252);
    if(!first) do_add(c, m, root, w, cursor, Pics(2, pic(3)), k2, mode, 0);
    compare(c, m, root, "added", true);
    if(image)
    {
        resource_directory again = through_image(root, cursor);
        compare(c, m, again, "read back", true);
        root = again;
    }
    do_remove(c, m, root, w, cursor, k);
    compare(c, m, root, "removed", true);
    do_add(c, m, root, w, cursor, many, k, !mode, 0);
    compare(c, m, root, "added again", false);
    c.outcome(state_of(m));
    do_remove(c, m, root, w, cursor, k2);
    do_remove(c, m, root, w, cursor, k);
    compare(c, m, root, "all removed", false);
    c.trace();
}
// Files that hold more pictures than there are numbers
static void exhausted(mc::Ctx& c)
{
    const bool cursor = c.flip("cursor");
    static const uint32_t counts[] = { 65535, 65534 };
    const uint32_t n = c.pick(counts, "pictures");
    const uint32_t taken[] = { 1, 65535, 65534, 30000, 2 };
    const int t = c.choose(5, "taken"), two = c.choose(5, "also taken");
    const int mode = c.choose(2, "mode");
    Model m;
    resource_directory root;
    pe_resource_manager rm(root);
    W w(rm);
    const uint32_t both[] = { taken[t], taken[two] };
    for(int i = 0; i < 2; ++i) { rm.add_resource("x", cursor ? pe_resource_viewer::resource_cursor : pe_resource_viewer::resource_icon, both[i], 0, 0, 0); m.others[pic_path(cursor, both[i], 0)] = "x cp0"; m.used[cursor].insert(both[i]); }
    const Key k = { false, 0, 0 };
    if(!place(m.used[cursor], mode, n).empty()) { c.outcome(0); return; }
    c.desc("%u pictures, %u and %u taken, mode %d", n, both[0], both[1], mode);
    do_add(c, m, root, w, cursor, Pics(n, pic(2)), k, mode, 0);
    compare(c, m, root, "exhausted", true);
    c.outcome(mc::mix(t, mc::mix(two, n)));
}
// ---------------------------------------------------------------- several languages of one group
static void languages(mc::Ctx& c)
{
    const bool cursor = c.flip("cursor"), named = c.flip("named");
    static const uint32_t langs[] = { 0, 0x409, 0x10409, 0x7fff0000 };
    Model m;
    resource_directory root;
    pe_resource_manager rm(root);
    W w(rm);
    const int n = 1 + c.choose(4, "languages");
    for(int i = 0; i < n; ++i)
    {
        const Key k = { named, 0, langs[(i + c.choose(2, "language")) % 4] };
        Pics p;
        for(int j = 0, x = 1 + c.choose(2, "pictures"); j < x; ++j) p.push_back(pic(i * 8 + j));
        do_add(c, m, root, w, cursor, p, k, c.choose(2, "mode"), i);
    }
    compare(c, m, root, "in memory", true);
    root = through_image(root, named);
    compare(c, m, root, "in an image", true);
    c.outcome(state_of(m));
}
// Pictures shared by the languages of a group have the group's language or, failing that, any
static void foreign(mc::Ctx& c)
{
    const bool cursor = c.flip("cursor"), named = c.flip("named");
    const uint32_t apart = c.choose(5, "second group elsewhere");       // same group in another language, another group of the same kind of key, of the other kind, the last two in the same language
    const uint32_t large = c.choose(3, "large identifiers");
    const Key k0 = { named, large ? large + 3 : 0, 0 }, k1 = { apart == 2 || apart == 4 ? !named : named, apart ? (large ? 6 - large : 2u) : k0.which, apart > 2 ? 0u : c.flip("large language") ? 0x10409u : 0x409u };
    Node r, gt = res::key(cursor ? 12 : 14), gn = named ? res::key(name_of(k0)) : res::key(id_of(k0)), pt = res::key(cursor ? 1 : 3);
    Pic p[2] = { pic(1), pic(2) };
    const int share = apart > 2 ? 0 : c.choose(2, "one number in two languages");
    for(int i = 0; i < 2; ++i)
    {
        Node gl = res::key(i ? k1.lang : 0);
        ref::app16(gl.data, 0); ref::app16(gl.data, cursor ? 2 : 1); ref::app16(gl.data, 1);
        if(cursor) { ref::app16(gl.data, p[i].w); ref::app16(gl.data, p[i].h * 2); ref::app32(gl.data, 0x10001); }
        else { gl.data += static_cast<char>(p[i].w); gl.data += static_cast<char>(p[i].h); gl.data += static_cast<char>(p[i].colours); gl.data += '\0'; ref::app16(gl.data, p[i].a); ref::app16(gl.data, p[i].b); }
        ref::app32(gl.data, static_cast<uint32_t>(p[i].data.size() + (cursor ? 4 : 0))); ref::app16(gl.data, share ? 4 : 4 + i);
        gl.leaf = true;
        if(i && apart) { Node g2 = k1.named ? res::key(name_of(k1)) : res::key(id_of(k1)); g2.kids.push_back(gl); gt.kids.push_back(g2); } else gn.kids.push_back(gl);
        Node l = res::key(i ? k1.lang : 0); l.leaf = true; l.data = stored_pic(cursor, p[i]);
        if(share && i) pt.kids[0].kids.push_back(l); else { Node x = res::key(4 + i); x.kids.push_back(l); pt.kids.push_back(x); }
    }
    if(c.flip("other order") && !apart) { std::swap(gn.kids[0], gn.kids[1]); }
    if(c.flip("pictures in other order") && share) std::swap(pt.kids[0].kids[0], pt.kids[0].kids[1]);
    gt.kids.insert(gt.kids.begin(), gn); r.kids.push_back(gt); r.kids.push_back(pt);
    const resource_directory d = res::to_library(r);
    c.step();
    for(int i = 0; i < 2; ++i)
    {
        same_file(c, "by language", cursor, by_lang(d, cursor, i ? k1 : k0), Pics(1, p[i]));
        if(!apart) same_file(c, "by index", cursor, by_index(d, cursor, k0, static_cast<uint32_t>(gn.kids[0].id ? 1 - i : i)), Pics(1, p[i]));
        else same_file(c, "by index", cursor, by_index(d, cursor, i ? k1 : k0, 0), Pics(1, p[i]));
        // single pictures: in their language, or by the place of their language
        const uint32_t lang = i ? k1.lang : 0, num = share ? 4 : 4 + i;
        same_file(c, "single picture", cursor, single(d, cursor, lang, num, false, 0), Pics(1, p[i]));
        const Node& pn = pt.kids[share ? 0 : i];
        for(size_t j = 0; j < pn.kids.size(); ++j) if(pn.kids[j].id == lang) same_file(c, "single picture by index", cursor, single(d, cursor, 0, num, true, static_cast<uint32_t>(j)), Pics(1, p[i]));
        bool refused = false;
        try { single(d, cursor, 0, num, true, static_cast<uint32_t>(pn.kids.size())); } catch(const pe_exception&) { refused = true; }
        MC_REQUIRE(c, refused, "index", "a picture that is not there was read");
    }
    c.outcome(res::hash_of(r));
}
// ---------------------------------------------------------------- refused files change nothing
static void refused(mc::Ctx& c)
{
    const bool cursor = c.flip("cursor"), existing = c.flip("existing group"), named = c.flip("named");
    const Key k = { named, 0, 0 };
    Model m;
    resource_directory root;
    pe_resource_manager rm(root);
    W w(rm);
    if(existing) do_add(c, m, root, w, cursor, Pics(1, pic(3)), k, 0, 5);
    Pics p; p.push_back(pic(1)); p.push_back(pic(2));
    Bytes f = file_of(cursor, p);
    const uint32_t size = static_cast<uint32_t>(f.size());
    const int what = c.choose(4, "damage");
    bool good;
    if(what == 0) { f.resize(c.choose(static_cast<int>(size + 1), "length")); good = f.size() == size; }
    else if(what == 1) { f[4] = static_cast<char>(c.choose(6, "count")); f[5] = static_cast<char>(c.flip("high count") ? 0x80 : 0); good = false; if(!f[5] && (f[4] == 2 || f[4] == 1)) good = true; }
    else
    {
        const int i = c.choose(2, "picture");
        const uint32_t e = 6 + 16 * i, n = static_cast<uint32_t>(p[i].data.size()), at = ref::get32(f, e + 12);
        const uint32_t bounds[] = { 0, 1, 37, 38, 39, at, at + 1, size - n, size - n + 1, size, size + 1, 0x80000000u, 0xffffffffu, 0xffffffffu - n, 0u - n };
        const uint32_t v = bounds[c.choose(15, "value")];
        ref::put32(f, e + (what == 2 ? 12 : 8), v);
        const uint64_t off = what == 2 ? v : at, len = what == 2 ? n : v;
        good = len && off >= 38 && off + len <= size;
    }
    const Flat before = flat(c, root);
    bool ok = true;
    c.step();
    try { add(w, cursor, f, k, c.choose(2, "mode"), 1, 1); } catch(const pe_exception&) { ok = false; }
    MC_REQUIRE(c, ok == good, "refusal", "a %s file was %s", good ? "good" : "damaged", ok ? "accepted" : "refused");
    if(!ok) MC_REQUIRE(c, flat(c, root) == before, "refused-changed", "refused but changed");
    c.outcome(mc::mix(mc::hash(f), ok));
}
// A file that is itself stored in the tree
static void aliases(mc::Ctx& c)
{
    const bool cursor = c.flip("cursor");
    Pics p;
    for(int i = 0, n = 1 + c.choose(4, "pictures"); i < n; ++i) p.push_back(pic(i));
    Model m;
    resource_directory root;
    pe_resource_manager rm(root);
    W w(rm);
    const Key k = { c.flip("named"), 0, 0 };
    const Bytes f = file_of(cursor, p);
    const int where = c.choose(4, "stored as");
    const int t = where == 0 ? 10 : where == 1 ? (cursor ? 1 : 3) : where == 2 ? (cursor ? 12 : 14) : 10;
    rm.add_resource(f, static_cast<pe_resource_viewer::resource_type>(t), 50, 0, 0, 0);
    if(where == 3) rm.add_resource("last", pe_resource_viewer::resource_html, 1, 0, 0, 0), m.others["/#23/#1/#0"] = "last cp0";
    m.others["/#" + std::to_string(t) + "/#50/#0"] = f + " cp0";
    if(where == 1) m.used[cursor].insert(50);
    const int mode = c.choose(2, "mode");
    const Bytes& in = root.entry_by_id(t).get_resource_directory().entry_by_id(50).get_resource_directory().entry_by_id(0).get_data_entry().get_data();
    c.step();
    add(w, cursor, in, k, mode);
    Group g; g.key = k; g.pics = p; g.nums = place(m.used[cursor], mode, p.size()); g.cp = 0;
    m.groups[cursor].push_back(g);
    compare(c, m, root, "after adding", where != 2);
    c.outcome(state_of(m));
}
namespace mc {
const Part parts[] = {
    { "files", files, 2, 3, "one file in every arrangement of its pictures, with deviating attributes, sizes, names and languages; in memory and through an image" },
    { "dimensions", dimensions, 0, 0, "every value of every attribute" },
    { "histories", histories, 0, 0, "every sequence of additions (one or two pictures, both numbering modes) and removals over three groups" },
    { "mixed", mixed, 0, 0, "icons and cursors together, written into an image, reread, edited, and again" },
    { "numbering", numbering, 0, 0, "every set of taken low numbers, with high numbers up to and past what a group can name" },
    { "limits", limits, 0, 0, "groups that fill up" },
    { "large", large, 0, 0, "groups of 1 to 513 pictures beside a small one, added, written into an image, removed, added again" },
    { "exhausted", exhausted, 0, 0, "files with more pictures than numbers are left" },
    { "languages", languages, 0, 0, "one group in up to four languages, read by language and by index" },
    { "foreign", foreign, 0, 0, "groups of other writers: one picture number in two languages, any order, in one group or two; whole files and single pictures" },
    { "refused", refused, 0, 0, "every truncation, count and placement of pictures at the edges; refused files change nothing" },
    { "aliases", aliases, 0, 0, "adding a file that is stored in the edited tree" },
};
const int part_count = sizeof(parts) / sizeof(parts[0]);
}
