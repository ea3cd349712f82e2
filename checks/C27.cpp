// C27: reading damaged resources is memory-safe and always ends.
#include "util.h"
#include "lay.h"
#include "res.h"
using namespace u;
using namespace lay;
using res::Node;
const char* const mc::check_id = "C27";

// ================================================================ the resource tree of an image
static bool make(mc::Ctx& c, Lay& l)
{
    l.plain = true;
    // offsets in the first piece: root 0, D1 32, D2 56, D3 88, entries 112, 128, 144, names 160
    Piece t(4), x(4), z(4);
    auto dir = [&](uint32_t chars, int named, int ids) { t.v(chars, 4); t.v(0, 4); t.v(4, 2); t.v(0, 2); t.v(named, 2); t.v(ids, 2); };
    auto ent = [&](uint32_t k, uint32_t v) { t.v(k, 4); t.v(v, 4); };
    const uint32_t hi = 0x80000000u;
    dir(0, 1, 1); ent(hi | 160, hi | 32); ent(7, hi | 56);
    dir(1, 0, 1); ent(1, 112);
    dir(2, 1, 1); ent(hi | 166, hi | 88); ent(2, 128);
    dir(3, 0, 1); ent(0x409, 144);
    t.ref_(1); t.v(5, 4); t.v(1252, 4); t.v(0, 4);
    t.v(0, 4); t.v(0, 4); t.v(0, 4); t.v(0, 4);
    t.ref_(2); t.v(8, 4); t.v(0, 4); t.v(0, 4);
    t.v(2, 2); t.v('a', 2); t.v('b', 2); t.v(1, 2); t.v('c', 2);
    x.b = "hello"; z.b = "resource";
    l.add(t); l.add(x); l.add(z);
    return l.build(c, 2, 200, 0);
}
// Everything reported is where the image has it
static void same(mc::Ctx& c, const ref::Mem& m, uint32_t root, uint64_t off, const resource_directory& d, int depth, uint64_t& n)
{
    const uint64_t at = root + off;
    MC_REQUIRE(c, depth <= 1000, "depth", "directories nested more than 1000 times");
    MC_REQUIRE(c, m.has(at, 16), "directory-outside", "a directory at %#llx lies partly outside the image", static_cast<unsigned long long>(at));
    const resource_directory::entry_list& l = d.get_entry_list();
    const uint32_t count = m.r16(at + 12) + m.r16(at + 14);
    MC_REQUIRE(c, l.size() == count && d.get_characteristics() == m.r32(at) && d.get_timestamp() == m.r32(at + 4) && d.get_major_version() == m.r16(at + 8) && d.get_minor_version() == m.r16(at + 10), "directory", "a directory at %#llx with %zu entries differs from the image", static_cast<unsigned long long>(at), l.size());
    for(uint32_t i = 0; i < count; ++i)
    {
        const uint64_t e = at + 16 + 8ULL * i;
        MC_REQUIRE(c, m.has(e, 8), "entry-outside", "entry %u lies partly outside the image", i);
        const uint32_t k = m.r32(e), v = m.r32(e + 4);
        ++n;
        if(k >> 31)
        {
            const uint64_t s = root + static_cast<uint64_t>(k & 0x7fffffff);
            const uint32_t len = m.r16(s);
            MC_REQUIRE(c, m.has(s, 2 + 2ULL * len), "name-outside", "the name of entry %u lies partly outside the image", i);
            MC_REQUIRE(c, l[i].is_named() && l[i].get_name().size() == len, "name", "entry %u: name of %zu characters instead of %u", i, l[i].get_name().size(), len);
            for(uint32_t j = 0; j < len; ++j) MC_REQUIRE(c, static_cast<uint32_t>(l[i].get_name()[j]) == m.r16(s + 2 + 2 * j), "name", "entry %u: character %u of the name differs", i, j);
        }
        else MC_REQUIRE(c, !l[i].is_named() && l[i].get_id() == k, "id", "entry %u: identifier %u instead of %u", i, l[i].get_id(), k);
        MC_REQUIRE(c, l[i].includes_data() == !(v >> 31), "kind", "entry %u: %s", i, l[i].includes_data() ? "data instead of a directory" : "a directory instead of data");
        if(v >> 31) same(c, m, root, v & 0x7fffffff, l[i].get_resource_directory(), depth + 1, n);
        else
        {
            const uint64_t t = root + static_cast<uint64_t>(v);
            MC_REQUIRE(c, m.has(t, 16), "data-entry-outside", "the data entry of entry %u lies partly outside the image", i);
            const uint32_t a = m.r32(t), size = m.r32(t + 4);
            const resource_data_entry& x = l[i].get_data_entry();
            MC_REQUIRE(c, x.get_codepage() == m.r32(t + 8) && x.get_data().size() == size, "data-entry", "entry %u: %zu bytes instead of %u", i, x.get_data().size(), size);
            if(!size) continue;
            MC_REQUIRE(c, m.has(a, size), "data-outside", "the data of entry %u lies partly outside the image", i);
            MC_REQUIRE(c, x.get_data() == m.bytes(a, size), "data", "the data of entry %u differs from the image", i);
        }
    }
}
static bool confirm(mc::Ctx& c, const pe_base& pe)
{
    uint64_t h = 0;
    bool ok = false;
    try
    {
        const resource_directory d = get_resources(pe);
        if(!pe.has_resources()) MC_REQUIRE(c, d.get_entry_list().empty(), "absent", "resources without a directory");
        else same(c, mem_of(pe), pe.get_directory_rva(2), 0, d, 0, h);
        ok = true;
    }
    catch(const pe_exception& e) { h = 1000 + static_cast<uint64_t>(e.get_id()); }
    catch(const std::bad_alloc&) { h = 2000; }
    catch(const ref::Err& e) { c.fail("outside", "something reported is not in the image: %s", e.what.c_str()); }
    c.step();
    c.outcome(h);
    return ok;
}
static std::vector<uint64_t> values(const Lay& l, unsigned w)
{
    std::vector<uint64_t> v;
    if(w == 1) { static const uint8_t x[] = { 0, 1, 0x7f, 0x80, 0xff }; v.assign(x, x + 5); return v; }
    if(w == 2) { const uint64_t x[] = { 0, 1, 2, 3, 7, 8, l.len - 1, l.len, 0x7ff, 0x800, 0x7fff, 0x8000, 0xffff }; v.assign(x, x + 13); return v; }
    const uint64_t end = 0x3000, img = l.last || l.cut >= 0 ? 0x3000 : 0x4000;
    const uint64_t r[] = { 0, 1, 2, 4, 8, 16, 32, 56, 88, 112, 128, 144, 160, 166, 170, 180, l.len - 16, l.len - 8, l.len - 2, l.len - 1, l.len, 0x1000, l.base, l.end_ - 1, l.end_, end - 16, end - 2, end - 1, end, img - 16, img - 1, img, img - l.base - 17, img - l.base - 16, img - l.base - 15, img - l.base - 2, img - l.base - 1, img - l.base, 0x7fffffff - l.base, 0x7ffffff0, 0x7fffffff };
    v.assign(r, r + sizeof(r) / sizeof(r[0]));
    const size_t n = v.size();
    for(size_t i = 0; i < n; ++i) v.push_back(v[i] | 0x80000000u);
    return v;
}
static void damage(mc::Ctx& c, Lay& l, int f)
{
    const size_t off = l.s.dirs_off() + 16;
    if(f == 0) { ref::put32(l.file, off, c.pick(values(l, 4), "directory address")); return; }
    if(f == 1) { ref::put32(l.file, off + 4, c.pick(values(l, 4), "directory size")); return; }
    const size_t o = f - 2;
    const unsigned ws[] = { 1, 2, 4 };
    const int k = o % 4 == 0 ? 3 : o % 2 == 0 ? 2 : 1;
    const unsigned w = ws[c.choose(k, "width")];
    const uint64_t v = c.pick(values(l, w), "value");
    c.desc("byte %zu (width %u) = %#llx", o, w, static_cast<unsigned long long>(v));
    for(unsigned i = 0; i < w; ++i) if(l.fileoff + o + i < l.file.size()) l.file[l.fileoff + o + i] = static_cast<char>(v >> (8 * i));
}
static void fields(mc::Ctx& c)
{
    Lay l(c.flip("PE+"), c.choose(places, "place"));
    l.last = c.flip("last section");
    if(!make(c, l)) return;
    damage(c, l, c.choose(static_cast<int>(l.len) + 2, "field"));
    pe_base pe(open_pe(l.file));
    confirm(c, pe);
}
static void pairs(mc::Ctx& c)
{
    Lay l(mc::thorough() && c.flip("PE+"), 1);
    l.last = true;
    if(!make(c, l)) return;
    const int total = static_cast<int>((l.len + 3) / 4) + 2;
    const uint64_t few[] = { 0, 1, 0xffff, 0x10000, 32, 112, 160, l.len - 1, 0x3000 - l.base - 16, 0x2fff, 0x3000, 0x7fffffff, 0x80000000u, 0x80000020u, 0x80000000u + l.len - 1, 0x80000000u + 0x3000 - l.base - 16, 0xffffffffu };
    const int f = c.choose(total, "field"), g = c.choose(total, "other field");
    if(g <= f) return;
    const int fs[] = { f, g };
    for(int i = 0; i < 2; ++i)
    {
        const uint64_t v = c.pick(few, "value");
        const size_t o = fs[i] < 2 ? l.s.dirs_off() + 16 + 4 * fs[i] : l.fileoff + 4 * (fs[i] - 2);
        if(o + 4 > l.file.size()) return;
        ref::put32(l.file, o, v);
    }
    pe_base pe(open_pe(l.file));
    confirm(c, pe);
}
static void truncated(mc::Ctx& c)
{
    Lay l(c.flip("PE+"), 1);
    const int k = c.choose(0x110, "bytes");
    l.cut = k;
    l.last = true;
    if(!make(c, l) || static_cast<size_t>(k) > l.len) return;
    c.desc("cut after %d of %zu bytes", k, l.len);
    if(c.devs_left() > 0) { const int f = c.dev(k + 3, "damaged field"); if(f) damage(c, l, f - 1); }
    pe_base pe(open_pe(l.file));
    confirm(c, pe);
}
// A section of words, the directory at its beginning
static pe_base with_words(const Bytes& words, bool pe64, uint32_t dir_at)
{
    Spec s(pe64);
    s.add(".text", img::pattern(0x200, 9));
    s.add(".rsrc", words);
    s.dirs[2].rva = 0x2000 + dir_at; s.dirs[2].size = 16;
    return open_pe(s.build(), false);
}
// Every graph of directories with two entries each, pointing to directories and data
static void graphs(mc::Ctx& c)
{
    const int n = mc::tier_pick(3, 4);
    Bytes b;
    std::vector<std::vector<int> > to(n);
    for(int i = 0; i < n; ++i)
    {
        const int entries = c.choose(3, "entries");
        ref::app32(b, i); ref::app32(b, 0); ref::app32(b, 0); ref::app16(b, 0); ref::app16(b, entries);
        for(int k = 0; k < 2; ++k)
        {
            ref::app32(b, k);
            if(k >= entries) { ref::app32(b, 0); continue; }
            const int t = c.choose(n + 1, "target");
            ref::app32(b, t == n ? 32 * n : 0x80000000u + 32 * t);
            if(t != n) to[i].push_back(t);
        }
    }
    ref::app32(b, 0x1000); ref::app32(b, 4); ref::app32(b, 0); ref::app32(b, 0);
    const int first = c.choose(n, "first directory");
    pe_base pe(with_words(b, false, 32 * first));
    // directories reached more than once may be refused, everything else has to be read
    std::vector<int> seen(n, 0), todo(1, 0);
    bool tree = first == 0;
    while(tree && !todo.empty())
    {
        const int t = todo.back(); todo.pop_back();
        if(seen[t]++) { tree = false; break; }
        todo.insert(todo.end(), to[t].begin(), to[t].end());
    }
    const bool ok = confirm(c, pe);
    MC_REQUIRE(c, ok || !tree, "refused", "a tree of directories is refused");
}
// Chains, rings, fans and shared data of many directories
static void many(mc::Ctx& c)
{
    static const uint32_t sizes[] = { 1, 2, 3, 8, 63, 64, 65, 66, 100, 127, 128, 1000, 20000, 65535 };
    const int shape = c.choose(6, "shape");
    const uint32_t n = c.pick(sizes, "count");
    Bytes b;
    auto dir = [&](uint32_t entries) { ref::app32(b, 0); ref::app32(b, 0); ref::app32(b, 0); ref::app16(b, 0); ref::app16(b, entries); };
    const uint32_t hi = 0x80000000u;
    const uint32_t len = shape <= 2 ? 24 * n : 0;
    switch(shape)
    {
    case 0: case 1: case 2:     // a chain ending with data, a ring, a chain running out of the image
        for(uint32_t i = 0; i < n; ++i) { dir(1); ref::app32(b, i & 0x7fffffff); ref::app32(b, i + 1 < n ? hi + 24 * (i + 1) : shape == 0 ? len : shape == 1 ? hi : hi + 0x7ffffff0); }
        break;
    case 3: case 4:             // a fan of empty directories, of entries for the same data
        if(n > 20000) return;   // one piece of it has to fit
        dir(n);
        for(uint32_t i = 0; i < n; ++i) { ref::app32(b, i); ref::app32(b, shape == 4 ? 16 + 8 * n : hi + 16 + 8 * n + 16 * i); }
        if(shape == 3) { for(uint32_t i = 0; i < n; ++i) dir(0); }
        break;
    default:                    // doubling: every directory refers to the next one twice
        for(uint32_t i = 0; i < n; ++i) { dir(2); for(int k = 0; k < 2; ++k) { ref::app32(b, k); ref::app32(b, i + 1 < n ? hi + 32 * (i + 1) : 32 * n); } }
    }
    ref::app32(b, 0x1000); ref::app32(b, 16); ref::app32(b, 0); ref::app32(b, 0);
    pe_base pe(with_words(b, c.flip("PE+"), 0));
    c.desc("shape %d of %u", shape, n);
    const bool ok = confirm(c, pe);
    MC_REQUIRE(c, ok || shape == 1 || shape == 2 || shape == 5 || (shape == 0 && n > 64), "refused", "a tree of directories is refused");
}
// Every short content over a small alphabet of words
static void words(mc::Ctx& c)
{
    const int n = mc::tier_pick(6, 7);
    const uint32_t base = 0x3000 - 4 * n;
    const uint32_t vals[] = { 0, 1, 8, 0x80000000u, 0x80000010u, 0x00010000, 0x00010001, base + 8 };
    Spec s(false);
    s.add(".text", img::pattern(0x200, 9));
    Bytes b = img::pattern(0x1000 - 4 * n, 6);
    for(int i = 0; i < n; ++i) ref::app32(b, c.pick(vals, "word"));
    s.add(".rsrc", b);
    s.dirs[2].rva = base - 12 * c.choose(2, "three words in front"); s.dirs[2].size = 16;
    if(s.dirs[2].rva != base) for(size_t i = 0; i < 3; ++i) ref::put32(b, b.size() - 4 * n - 12 + 4 * i, 0);
    s.secs[1].data = b;
    pe_base pe(open_pe(s.build()));
    confirm(c, pe);
}

// ================================================================ the contents of resources
enum { k_version, k_strings, k_messages, k_bitmap, k_icon, k_cursor, k_icon_group, k_cursor_group, kinds };
static const char* const kname[] = { "version", "string table", "message table", "bitmap", "icon", "cursor", "icon group", "cursor group" };
static const uint32_t ktype[] = { 16, 6, 11, 2, 3, 1, 14, 12 };
static void block(Bytes& b, size_t at, uint32_t vlen, uint32_t type) { ref::put16(b, at, b.size() - at); ref::put16(b, at + 2, vlen); ref::put16(b, at + 4, type); }
static void open_block(Bytes& b, const char* key) { b.resize(ref::up(b.size(), 4)); b += Bytes(6, '\0'); for(; *key; ++key) ref::app16(b, *key); ref::app16(b, 0); b.resize(ref::up(b.size(), 4)); }
static Bytes version()
{
    Bytes b;
    open_block(b, "VS_VERSION_INFO");
    ref::app32(b, 0xfeef04bd); ref::app32(b, 0x10000); for(int i = 0; i < 11; ++i) ref::app32(b, i);
    const size_t sf = b.size(); open_block(b, "StringFileInfo");
    const size_t st = b.size(); open_block(b, "000004b0");
    const size_t s1 = b.size(); open_block(b, "Ab"); for(const char* p = "cd"; *p; ++p) ref::app16(b, *p); ref::app16(b, 0); block(b, s1, 3, 1); b.resize(ref::up(b.size(), 4));
    const size_t s2 = b.size(); open_block(b, "E"); block(b, s2, 0, 1);
    block(b, st, 0, 1); block(b, sf, 0, 1);
    const size_t vf = b.size(); open_block(b, "VarFileInfo");
    const size_t v1 = b.size(); open_block(b, "Translation"); ref::app16(b, 0x409); ref::app16(b, 0x4b0); block(b, v1, 4, 0);
    block(b, vf, 0, 1);
    block(b, 0, 52, 0);
    return b;
}
static Bytes content(int k)
{
    Bytes b;
    switch(k)
    {
    case k_version: return version();
    case k_strings:
        for(int i = 0; i < 16; ++i) { const char* s = i == 0 ? "one" : i == 5 ? "x" : i == 15 ? "last" : ""; ref::app16(b, static_cast<uint32_t>(strlen(s))); for(; *s; ++s) ref::app16(b, *s); }
        return b;
    case k_messages:
        ref::app32(b, 2); ref::app32(b, 1); ref::app32(b, 2); ref::app32(b, 28); ref::app32(b, 9); ref::app32(b, 9); ref::app32(b, 48);
        ref::app16(b, 8); ref::app16(b, 0); b += Bytes("abc\0", 4);
        ref::app16(b, 12); ref::app16(b, 1); for(const char* p = "wide"; *p; ++p) ref::app16(b, *p);
        ref::app16(b, 8); ref::app16(b, 0); b += Bytes("msg\0", 4);
        return b;
    case k_bitmap:
        ref::app32(b, 40); ref::app32(b, 2); ref::app32(b, 2); ref::app16(b, 1); ref::app16(b, 1); ref::app32(b, 0); ref::app32(b, 8); ref::app32(b, 0); ref::app32(b, 0); ref::app32(b, 0); ref::app32(b, 0);
        return b + img::pattern(16, 3);
    case k_icon: return img::pattern(20, 5);
    case k_cursor: return img::pattern(24, 5);
    default:
        ref::app16(b, 0); ref::app16(b, k == k_icon_group ? 1 : 2); ref::app16(b, 2);
        for(uint32_t i = 1; i <= 2; ++i)
        {
            if(k == k_icon_group) { b += '\x10'; b += '\x10'; b += '\0'; b += '\0'; } else { ref::app16(b, 16); ref::app16(b, 32); }
            ref::app16(b, 1); ref::app16(b, 8); ref::app32(b, k == k_icon_group ? 20 : 24); ref::app16(b, i);
        }
        return b;
    }
}
static Node leaf(uint32_t id, const Bytes& d) { Node n = res::key(id); n.leaf = true; n.data = d; return n; }
// A complete tree of all kinds (identifier 1 and a name, language 5), one of them replaced
static Node tree_with(int k, const Bytes& d)
{
    Node root;
    for(int i = 0; i < kinds; ++i)
    {
        const bool pic = i == k_icon || i == k_cursor;
        if(i != k && !(pic && (k == k_icon_group || k == k_cursor_group)) && !((k == k_icon && i == k_icon_group) || (k == k_cursor && i == k_cursor_group))) continue;
        Node type = res::key(ktype[i]);
        const Bytes what = i == k ? d : content(i);
        Node byname = res::key(L"N"), byid = res::key(1);
        byname.kids.push_back(leaf(5, what)); byid.kids.push_back(leaf(5, what));
        if(!pic) type.kids.push_back(byname);
        type.kids.push_back(byid);
        if(pic) { Node two = res::key(2); two.kids.push_back(leaf(5, content(i))); type.kids.push_back(two); }
        root.kids.push_back(type);
    }
    res::sort(root);
    return root;
}
static bool inside(const Bytes& data, const std::wstring& w)
{
    Bytes b;
    for(size_t i = 0; i < w.size(); ++i) ref::app16(b, static_cast<uint32_t>(w[i]));
    return data.find(b) != Bytes::npos;
}
// One reader call: a result or a standard exception
template<class F> static bool call(mc::Ctx& c, uint64_t& h, F f)
{
    c.step();
    try { f(); h = mc::mix(h, 1); return true; }
    catch(const pe_exception& e) { h = mc::mix(h, 1000 + static_cast<uint64_t>(e.get_id())); }
    catch(const std::bad_alloc&) { h = mc::mix(h, 2000); }
    catch(const std::exception&) { h = mc::mix(h, 3000); }
    return false;
}
static void strings_in(mc::Ctx& c, const Bytes& d, const resource_string_list& l)
{
    size_t bytes = 32;
    for(resource_string_list::const_iterator i = l.begin(); i != l.end(); ++i) { bytes += 2 * i->second.size(); MC_REQUIRE(c, inside(d, i->second), "string", "string %u is not in the data", i->first); }
    MC_REQUIRE(c, bytes <= d.size(), "strings", "strings of %zu bytes in %zu bytes of data", bytes, d.size());
}
static void messages_in(mc::Ctx& c, const Bytes& d, const resource_message_list& l)
{
    for(resource_message_list::const_iterator i = l.begin(); i != l.end(); ++i)
        MC_REQUIRE(c, i->second.is_unicode() ? inside(d, i->second.get_unicode_string()) : d.find(i->second.get_ansi_string()) != Bytes::npos, "message", "message %u is not in the data", i->first);
}
static void version_in(mc::Ctx& c, const Bytes& d, const file_version_info& f, const lang_string_values_map& s, const translation_values_map& t)
{
    for(lang_string_values_map::const_iterator i = s.begin(); i != s.end(); ++i)
    {
        MC_REQUIRE(c, inside(d, i->first), "version-table", "the name of a string table is not in the data");
        for(string_values_map::const_iterator j = i->second.begin(); j != i->second.end(); ++j) MC_REQUIRE(c, inside(d, j->first) && inside(d, j->second), "version-string", "a string is not in the data");
    }
    for(translation_values_map::const_iterator i = t.begin(); i != t.end(); ++i) { Bytes b; ref::app16(b, i->first); ref::app16(b, i->second); MC_REQUIRE(c, d.find(b) != Bytes::npos, "version-translation", "a translation is not in the data"); }
    if(f.get_file_version_ms() || f.get_file_version_ls()) { Bytes b; ref::app32(b, f.get_file_version_ms()); ref::app32(b, f.get_file_version_ls()); MC_REQUIRE(c, d.find(b) != Bytes::npos, "version-fixed", "the fixed version is not in the data"); }
}
// What the file says is what the group and the pictures say
static void file_in(mc::Ctx& c, const char* what, bool cursor, const Bytes& f, const Bytes& group, bool single)
{
    MC_REQUIRE(c, group.size() >= 6 && f.size() >= 6, "group-short", "%s: a file from %zu bytes of a group", what, group.size());
    const uint32_t n = ref::get16(f, 4);
    MC_REQUIRE(c, n == (single ? 1 : ref::get16(group, 4)) && f.size() >= 6 + 16ULL * n, "group-count", "%s: %u pictures", what, n);
    if(!single) MC_REQUIRE(c, group.size() >= 6 + 14ULL * n, "group-outside", "%s: %u pictures read from %zu bytes", what, n, group.size());
    for(uint32_t i = 0; i < n; ++i)
    {
        const Bytes e = f.substr(6 + 16 * i, 16);
        bool found = false;
        for(size_t k = single ? 0 : i; 6 + 14 * (k + 1) <= group.size() && (single || k == i) && !found; ++k)
        {
            const Bytes g = group.substr(6 + 14 * k, 14);
            if(cursor) found = e[0] == g[0] && static_cast<uint8_t>(e[1]) == static_cast<uint8_t>(ref::get16(g, 2) / 2) && ref::get32(e, 8) == ref::get32(g, 8) - 4;
            else found = e.substr(0, 12) == g.substr(0, 12);
        }
        MC_REQUIRE(c, found, "group-entry", "%s: picture %u is not in the group", what, i);
    }
}
static void read_all(mc::Ctx& c, const resource_directory& root, int k, const Bytes& d, bool edits = false)
{
    uint64_t h = k;
    const pe_resource_viewer v(root);
    switch(k)
    {
    case k_version:
    {
        const resource_version_info_reader r(v);
        for(int how = 0; how < 2; ++how)
        {
            lang_string_values_map s; translation_values_map t; file_version_info f;
            if(call(c, h, [&] { f = how ? r.get_version_info_by_lang(s, t, 5) : r.get_version_info(s, t, 0); })) { version_in(c, d, f, s, t); h = mc::mix(h, s.size() * 100 + t.size()); }
        }
        break;
    }
    case k_strings:
    {
        const resource_string_table_reader r(v);
        resource_string_list l;
        if(call(c, h, [&] { l = r.get_string_table_by_id(1, 0); })) strings_in(c, d, l);
        h = mc::mix(h, l.size());
        if(call(c, h, [&] { l = r.get_string_table_by_id_lang(5, 1); })) strings_in(c, d, l);
        std::wstring s;
        for(int i = 0; i < 17; i += 5) { if(call(c, h, [&] { s = r.get_string_by_id(static_cast<uint16_t>(i), 0); })) MC_REQUIRE(c, inside(d, s), "string", "string %d is not in the data", i); }
        if(call(c, h, [&] { s = r.get_string_by_id_lang(5, 15); })) MC_REQUIRE(c, inside(d, s), "string", "string 15 is not in the data");
        break;
    }
    case k_messages:
    {
        const resource_message_list_reader r(v);
        resource_message_list l;
        if(call(c, h, [&] { l = r.get_message_table_by_id(1, 0); })) messages_in(c, d, l);
        h = mc::mix(h, l.size());
        if(call(c, h, [&] { l = r.get_message_table_by_id_lang(5, 1); })) messages_in(c, d, l);
        break;
    }
    case k_bitmap:
    {
        const resource_bitmap_reader r(v);
        for(int how = 0; how < 4; ++how)
        {
            Bytes b;
            if(call(c, h, [&] { b = how == 0 ? r.get_bitmap_by_id(1, 0) : how == 1 ? r.get_bitmap_by_id_lang(5, 1) : how == 2 ? r.get_bitmap_by_name(5, L"N") : r.get_bitmap_by_name(L"N", 0); }))
                MC_REQUIRE(c, b.size() == d.size() + 14 && b.substr(14) == d && d.size() >= 40, "bitmap", "a bitmap of %zu bytes from %zu bytes of data", b.size(), d.size());
        }
        break;
    }
    default:
    {
        const resource_cursor_icon_reader r(v);
        const bool cur = k == k_cursor || k == k_cursor_group;
        const int g = cur ? k_cursor_group : k_icon_group;
        const Bytes group = k == g ? d : content(g);
        for(int how = 0; how < 8; ++how)
        {
            Bytes b;
            const bool single = how >= 4;
            const bool ok = call(c, h, [&] {
                switch(how)
                {
                case 0: b = cur ? r.get_cursor_by_name(L"N", 0) : r.get_icon_by_name(L"N", 0); break;
                case 1: b = cur ? r.get_cursor_by_name(5, L"N") : r.get_icon_by_name(5, L"N"); break;
                case 2: b = cur ? r.get_cursor_by_id(1, 0) : r.get_icon_by_id(1, 0); break;
                case 3: b = cur ? r.get_cursor_by_id_lang(5, 1) : r.get_icon_by_id_lang(5, 1); break;
                case 4: b = cur ? r.get_single_cursor_by_id(1, 0) : r.get_single_icon_by_id(1, 0); break;
                case 5: b = cur ? r.get_single_cursor_by_id_lang(5, 1) : r.get_single_icon_by_id_lang(5, 1); break;
                case 6: b = cur ? r.get_single_cursor_by_id(2, 0) : r.get_single_icon_by_id(2, 0); break;
                default: b = cur ? r.get_single_cursor_by_id_lang(5, 2) : r.get_single_icon_by_id_lang(5, 2);
                } });
            if(ok) { file_in(c, kname[g], cur, b, group, single); h = mc::mix(h, b.size()); }
        }
    }
    }
    if(edits)
    {
        // editing such groups reads them as well
        for(int how = 0; how < 6; ++how)
        {
            resource_directory copy(root);
            pe_resource_manager m(copy);
            resource_cursor_icon_writer w(m);
            const bool cur = k == k_cursor || k == k_cursor_group;
            Bytes f;
            ref::app16(f, 0); ref::app16(f, cur ? 2 : 1); ref::app16(f, 1);
            f += Bytes("\x10\x10\0\0\1\0\4\0", 8); ref::app32(f, 30); ref::app32(f, 22); f += Bytes(30, 'p');
            call(c, h, [&] {
                const resource_cursor_icon_writer::icon_place_mode mode = how % 2 ? resource_cursor_icon_writer::icon_place_free_ids : resource_cursor_icon_writer::icon_place_after_max_icon_id;
                if(how == 0) h = mc::mix(h, cur ? w.remove_cursor_group(L"N", 5) : w.remove_icon_group(L"N", 5));
                else if(how == 1) h = mc::mix(h, cur ? w.remove_cursor_group(1, 5) : w.remove_icon_group(1, 5));
                else if(how < 4) { if(cur) w.add_cursor(f, L"N", 5, mode, 0, 0); else w.add_icon(f, L"N", 5, mode, 0, 0); }
                else { if(cur) w.add_cursor(f, 1, 5, mode, 0, 0); else w.add_icon(f, 1, 5, mode, 0, 0); } });
        }
    }
    c.outcome(h);
}
static std::vector<uint64_t> inner_values(size_t len, unsigned w)
{
    std::vector<uint64_t> v;
    if(w == 1) { static const uint8_t x[] = { 0, 1, 2, 0x7f, 0x80, 0xff }; v.assign(x, x + 6); return v; }
    const uint64_t r[] = { 0, 1, 2, 3, 4, 5, 6, 8, 14, 15, 16, 24, len / 2 - 1, len / 2, len - 8, len - 5, len - 4, len - 3, len - 2, len - 1, len, len + 1, 0x7fff, 0x8000, 0xfffc, 0xfffe, 0xffff };
    v.assign(r, r + sizeof(r) / sizeof(r[0]));
    if(w == 4) { const uint64_t x[] = { 0x10000, 0x1000000, 0x15555555, 0x15555556, 0x3fffffff, 0x40000000, 0x7fffffff, 0x80000000u, 0xfffffff0u, 0xfffffffcu, 0xffffffffu }; v.insert(v.end(), x, x + 11); }
    return v;
}
static void put(Bytes& b, size_t o, uint64_t v, unsigned w) { for(unsigned i = 0; i < w && o + i < b.size(); ++i) b[o + i] = static_cast<char>(v >> (8 * i)); }
static void one_field(mc::Ctx& c, Bytes& d)
{
    const size_t o = c.choose(static_cast<int>(d.size()), "byte");
    const unsigned ws[] = { 2, 1, 4 };
    const unsigned w = o % 2 ? 1 : ws[c.choose(3, "width")];
    const uint64_t v = c.pick(inner_values(d.size(), w), "value");
    c.desc("byte %zu (width %u) = %#llx", o, w, static_cast<unsigned long long>(v));
    put(d, o, v, w);
}
static bool group_kind(int k) { return k >= k_icon; }
static void contents(mc::Ctx& c)
{
    const int k = c.choose(kinds, "kind");
    Bytes d = content(k);
    c.desc("%s of %zu bytes", kname[k], d.size());
    one_field(c, d);
    const resource_directory root = res::to_library(tree_with(k, d));
    read_all(c, root, k, d, group_kind(k));
}
static void content_pairs(mc::Ctx& c)
{
    const int k = c.choose(kinds, "kind");
    Bytes d = content(k);
    if(k == k_icon || k == k_cursor) return;
    const int total = static_cast<int>(d.size() / 2);
    const int f = c.choose(total, "field"), g = c.choose(total, "other field");
    if(g <= f) return;
    const uint64_t few[] = { 0, 1, 6, d.size() / 2, d.size() - 2, d.size() + 1, 0x8000, 0xffff };
    const uint64_t v = c.pick(few, "value"), w = c.pick(few, "value");
    put(d, 2 * f, v, 2); put(d, 2 * g, w, 2);
    c.desc("%s: byte %d = %#llx, byte %d = %#llx", kname[k], 2 * f, static_cast<unsigned long long>(v), 2 * g, static_cast<unsigned long long>(w));
    const resource_directory root = res::to_library(tree_with(k, d));
    read_all(c, root, k, d, group_kind(k));
}
static void content_truncated(mc::Ctx& c)
{
    const int k = c.choose(kinds, "kind");
    Bytes d = content(k);
    const int n = c.choose(static_cast<int>(d.size()) + 1, "bytes");
    d.resize(n);
    c.desc("%s cut after %d bytes", kname[k], n);
    if(n && mc::thorough() && c.flip("damaged")) one_field(c, d);
    const resource_directory root = res::to_library(tree_with(k, d));
    read_all(c, root, k, d, group_kind(k));
}
// Every short content over a small alphabet of 16-bit units
static void content_words(mc::Ctx& c)
{
    const int k = c.choose(kinds, "kind");
    const int n = c.choose(mc::tier_pick(6, 7), "units");
    Bytes d;
    const uint32_t vals[] = { 0, 1, 2, 6, 14, 0xffff };
    for(int i = 0; i < n; ++i) ref::app16(d, c.pick(vals, "unit"));
    if(c.flip("odd")) d += '\1';
    const resource_directory root = res::to_library(tree_with(k, d));
    read_all(c, root, k, d, group_kind(k));
}
// Trees with data and directories at unexpected levels
static void shapes(mc::Ctx& c)
{
    const int k = c.choose(kinds, "kind");
    Node root = tree_with(k, content(k));
    // every node of the tree: taken out, emptied, exchanged for data, exchanged for a directory, given another key
    std::vector<Node*> all; std::vector<std::pair<Node*, size_t> > up;
    std::vector<Node*> todo(1, &root);
    while(!todo.empty()) { Node* n = todo.back(); todo.pop_back(); for(size_t i = 0; i < n->kids.size(); ++i) { up.push_back(std::make_pair(n, i)); todo.push_back(&n->kids[i]); } }
    const int at = c.choose(static_cast<int>(up.size()), "node"), what = c.choose(7, "change");
    Node& p = *up[at].first; Node& n = p.kids[up[at].second];
    switch(what)
    {
    case 0: p.kids.erase(p.kids.begin() + up[at].second); break;
    case 1: n.kids.clear(); n.leaf = false; n.data.clear(); break;
    case 2: n.kids.clear(); n.leaf = true; n.data = content(k); break;
    case 3: { Node in = n; in.named = false; in.id = 1; n.leaf = false; n.kids.assign(1, in); break; }
    case 4: n.named = !n.named; n.name = n.named ? L"N" : L""; if(n.named) n.id = 0; else n.id = 1; break;
    case 5: { Node twin = n; p.kids.push_back(twin); break; }
    default: n.named = false; n.name = L""; n.id = 70000;
    }
    c.desc("%s: node %d, change %d: %s", kname[k], at, what, res::text(root).c_str());
    resource_directory d = res::to_library(root);
    if(c.flip("through an image"))
    {
        pe_base pe(fresh(false));
        section s; s.get_raw_data().resize(1); s.set_name("rsrc"); s.readable(true);
        section& a = pe.add_section(s);
        try { rebuild_resources(pe, d, a); d = get_resources(pe); } catch(const pe_exception&) { return; }
    }
    // every way of looking at it
    uint64_t h = what;
    const pe_resource_viewer v(d);
    const pe_resource_viewer::resource_type types[] = { pe_resource_viewer::resource_icon, pe_resource_viewer::resource_icon_group, pe_resource_viewer::resource_cursor, pe_resource_viewer::resource_cursor_group, pe_resource_viewer::resource_version, pe_resource_viewer::resource_string, pe_resource_viewer::resource_message_table, pe_resource_viewer::resource_bitmap };
    call(c, h, [&] { h = mc::mix(h, v.list_resource_types().size()); });
    for(size_t i = 0; i < 8; ++i)
    {
        call(c, h, [&] { h = mc::mix(h, v.resource_exists(types[i])); });
        call(c, h, [&] { h = mc::mix(h, v.list_resource_names(types[i]).size()); });
        call(c, h, [&] { h = mc::mix(h, v.list_resource_ids(types[i]).size()); });
        call(c, h, [&] { h = mc::mix(h, v.get_resource_count(types[i])); });
        call(c, h, [&] { h = mc::mix(h, v.get_language_count(types[i], L"N")); });
        call(c, h, [&] { h = mc::mix(h, v.get_language_count(types[i], 1)); });
        call(c, h, [&] { h = mc::mix(h, v.list_resource_languages(types[i], L"N").size()); });
        call(c, h, [&] { h = mc::mix(h, v.list_resource_languages(types[i], 1).size()); });
        call(c, h, [&] { h = mc::mix(h, v.get_resource_data_by_name(5, types[i], L"N").get_data().size()); });
        call(c, h, [&] { h = mc::mix(h, v.get_resource_data_by_name(types[i], L"N", 0).get_data().size()); });
        call(c, h, [&] { h = mc::mix(h, v.get_resource_data_by_id(5, types[i], 1).get_data().size()); });
        call(c, h, [&] { h = mc::mix(h, v.get_resource_data_by_id(types[i], 1, 1).get_data().size()); });
    }
    c.outcome(h);
    // the readers; what they report comes from contents that are well-formed
    const resource_directory keep(d);
    read_all(c, keep, k, content(k), group_kind(k));
}
namespace mc
{
const Part parts[] = {
    { "fields", fields, 0, 0, "a tree of 4 directories: every byte, word and dword set to boundary values x 5 places x kinds of images; outcome: distinct result or refusal" },
    { "pairs", pairs, 0, 0, "every pair of aligned fields of the tree set to boundary values; outcome: distinct result or refusal" },
    { "truncated", truncated, 0, 1, "the tree cut by the image end after every byte (thorough: with one damaged field)" },
    { "graphs", graphs, 0, 0, "every graph of 3 (4) directories with up to 2 entries pointing to any directory or data, from every starting directory" },
    { "many", many, 0, 0, "chains, rings, fans and doublings of up to 65535 directories" },
    { "words", words, 0, 0, "every directory content of 6 (7) words over an alphabet of 8 at the end of the image" },
    { "contents", contents, 0, 0, "8 kinds of resources: every byte, word and dword set to boundary values; all readers" },
    { "content-pairs", content_pairs, 0, 0, "6 kinds of resources: every pair of words set to boundary values; all readers" },
    { "content-truncated", content_truncated, 0, 0, "8 kinds of resources cut after every byte (thorough: with one damaged field); all readers" },
    { "content-words", content_words, 0, 0, "8 kinds of resources: every content of up to 5 (6) units over an alphabet of 6, of even and odd length; all readers" },
    { "shapes", shapes, 0, 0, "every node of every tree taken out, emptied, exchanged for data or a directory, renamed, doubled; all listings, lookups and readers" },
};
const int part_count = sizeof(parts) / sizeof(parts[0]);
}
