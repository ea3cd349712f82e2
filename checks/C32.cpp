// C32: string and message tables are decoded exactly.
#include "reb.h"
#include "res.h"
using namespace u;
using res::Node;
const char* const mc::check_id = "C32";

static void put16s(Bytes& b, const std::wstring& s) { for(size_t i = 0; i < s.size(); ++i) ref::app16(b, s[i]); }
static resource_directory through_image(const resource_directory& d, bool pe64)
{
    pe_base pe(fresh(pe64));
    section& s = add_sec(pe, "rsrc", Bytes(1, 'r'));
    resource_directory copy(d);
    rebuild_resources(pe, copy, s);
    const Bytes f = write_pe(pe);
    return get_resources(open_pe(f, false, false));
}
typedef std::map<uint32_t, std::wstring> Strings;
// One bundle of 16 strings
static Bytes bundle(const Strings& all, uint32_t id, uint32_t extra)
{
    Bytes b;
    for(uint32_t i = 0; i < 16; ++i)
    {
        Strings::const_iterator it = all.find((id - 1) * 16 + i);
        const std::wstring s = it == all.end() ? L"" : it->second;
        ref::app16(b, s.size());
        put16s(b, s);
    }
    return b + Bytes(extra, '\0');
}
static Bytes narrow(const std::wstring& w) { Bytes b; put16s(b, w); return mc::hex(b); }
static void check_strings(mc::Ctx& c, const resource_directory& root, const std::vector<std::pair<uint32_t, Strings> >& langs, const std::vector<uint32_t>& ids)
{
    const pe_resource_viewer v(root);
    const resource_string_table_reader r(v);
    for(size_t k = 0; k < langs.size(); ++k)
        for(size_t j = 0; j < ids.size(); ++j)
        {
            const uint32_t id = ids[j];
            const Strings& all = langs[k].second;
            Strings want;
            for(Strings::const_iterator it = all.begin(); it != all.end(); ++it) if(it->first / 16 + 1 == id && !it->second.empty()) want.insert(*it);
            const resource_string_list a = r.get_string_table_by_id(id, static_cast<uint32_t>(k)), b = r.get_string_table_by_id_lang(langs[k].first, id);
            MC_REQUIRE(c, a == b, "index-language", "bundle %u: by index and by language differ", id);
            MC_REQUIRE(c, a.size() == want.size(), "string-count", "bundle %u has %zu strings, should have %zu", id, a.size(), want.size());
            for(resource_string_list::const_iterator it = a.begin(); it != a.end(); ++it)
            {
                Strings::const_iterator w = want.find(it->first);
                MC_REQUIRE(c, w != want.end() && w->second == it->second, "string", "string %u differs: %s", it->first, narrow(it->second).c_str());
            }
            for(uint32_t i = 0; i < 16; ++i)
            {
                const uint16_t sid = static_cast<uint16_t>((id - 1) * 16 + i);
                const bool there = want.count(sid);
                for(int how = 0; how < 2; ++how)
                {
                    std::wstring s; bool ok = true;
                    c.step();
                    try { s = how ? r.get_string_by_id(sid, static_cast<uint32_t>(k)) : r.get_string_by_id_lang(langs[k].first, sid); } catch(const pe_exception&) { ok = false; }
                    MC_REQUIRE(c, ok == there, "string-present", "string %u is %s", sid, ok ? "found" : "not found");
                    if(there) MC_REQUIRE(c, s == want[sid], "string-lookup", "string %u looked up is %s", sid, narrow(s).c_str());
                }
            }
        }
    bool ok = true;
    try { r.get_string_by_id(static_cast<uint16_t>(ids[0] * 16 - 1), static_cast<uint32_t>(langs.size())); } catch(const pe_exception&) { ok = false; }
    MC_REQUIRE(c, !ok, "index-past", "a string of a language past the last one was found");
    ok = true;
    try { r.get_string_table_by_id_lang(0x77, ids[0]); } catch(const pe_exception&) { ok = false; }
    MC_REQUIRE(c, !ok, "other-language", "a bundle of another language was found");
    ok = true;
    try { r.get_string_table_by_id(ids[0] == 99 ? 98 : 99); } catch(const pe_exception&) { ok = false; }
    MC_REQUIRE(c, !ok, "other-bundle", "a bundle that does not exist was found");
}
static std::wstring some_text(mc::Ctx& c, int alt)
{
    (void)c;
    switch(alt)
    {
    case 0: return L"";
    case 1: return L"a";
    case 2: return L"Hello";
    case 3: return L"\x416\xffff\x1";
    case 4: return std::wstring(L"x\0y", 3);
    case 5: return std::wstring(300, L'L');
    case 6: return std::wstring(1, L'\0');
    default: return L"ab\r\n";
    }
}
// Bundles with every set of present strings, and texts of every kind at every position
static void strings(mc::Ctx& c)
{
    static const uint32_t bundles[] = { 1, 2, 17, 4096 };
    const uint32_t id = c.pick(bundles, "bundle");
    const int mode = c.choose(2, "mode");
    Strings all;
    if(mode == 0)
    {
        const int mask = c.choose(mc::tier_pick(1 << 10, 1 << 13), "present");
        for(uint32_t i = 0; i < 16; ++i) if((mask * 41 >> i) & 1) all[(id - 1) * 16 + i] = std::wstring(1 + i % 3, static_cast<wchar_t>(L'A' + i));
    }
    else
    {
        for(uint32_t i = 0; i < 16; ++i) { const int alt = c.dev(8, "text"); if(alt) all[(id - 1) * 16 + i] = some_text(c, alt); }
    }
    Node root, type = res::key(6), table = res::key(id), lang = res::key(0x409);
    lang.leaf = true; lang.data = bundle(all, id, mode ? c.dev(3, "padding") : c.choose(2, "padding"));
    table.kids.push_back(lang); type.kids.push_back(table); root.kids.push_back(type);
    std::vector<std::pair<uint32_t, Strings> > langs(1, std::make_pair(0x409u, all));
    c.desc("bundle %u with %zu strings", id, all.size());
    check_strings(c, res::to_library(root), langs, std::vector<uint32_t>(1, id));
    c.outcome(mc::hash(lang.data));
}
// Several bundles and languages, in a written image
static void languages(mc::Ctx& c)
{
    const bool pe64 = c.flip("flavour");
    const int nl = 1 + c.choose(mc::tier_pick(2, 3), "languages"), nb = 1 + c.choose(2, "bundles");
    static const uint32_t ids[] = { 3, 4096 }, lids[] = { 0, 0x409, 0x419 };
    std::vector<std::pair<uint32_t, Strings> > langs;
    for(int k = 0; k < nl; ++k)
    {
        Strings all;
        for(int j = 0; j < nb; ++j)
            for(int x = 0; x < 2; ++x) { const int alt = c.dev(8, "text"); if(alt) all[(ids[j] - 1) * 16 + (x ? 15 : 0)] = some_text(c, alt); }
        langs.push_back(std::make_pair(lids[k], all));
    }
    Node root, type = res::key(6);
    std::vector<uint32_t> used;
    uint64_t h = 0;
    for(int j = 0; j < nb; ++j)
    {
        Node table = res::key(ids[j]);
        for(int k = 0; k < nl; ++k) { Node l = res::key(lids[k]); l.leaf = true; l.data = bundle(langs[k].second, ids[j], 0); h = mc::mix(h, mc::hash(l.data)); table.kids.push_back(l); }
        type.kids.push_back(table);
        used.push_back(ids[j]);
    }
    root.kids.push_back(type);
    check_strings(c, through_image(res::to_library(root), pe64), langs, used);
    c.outcome(h);
    c.trace();
}
// ---------------------------------------------------------------- message tables
struct Msg { bool unicode; Bytes ansi; std::wstring wide; };
typedef std::map<uint32_t, Msg> Msgs;
struct Block { uint32_t lo, hi; };
static Bytes table_of(const std::vector<Block>& blocks, const Msgs& all, uint32_t gap, bool reversed, uint32_t pad, uint32_t other_flags = 0)
{
    Bytes head, body;
    ref::app32(head, blocks.size());
    head.resize(4 + 12 * blocks.size(), 0);
    for(size_t n = 0; n < blocks.size(); ++n)
    {
        const size_t i = reversed ? blocks.size() - 1 - n : n;
        body += Bytes(gap, '\x7f');
        ref::put32(head, 4 + 12 * i, blocks[i].lo); ref::put32(head, 8 + 12 * i, blocks[i].hi); ref::put32(head, 12 + 12 * i, head.size() + body.size());
        for(uint64_t id = blocks[i].lo; id <= blocks[i].hi; ++id)
        {
            const Msg& m = all.find(static_cast<uint32_t>(id))->second;
            Bytes t = m.ansi;
            if(m.unicode) { t.clear(); put16s(t, m.wide); }
            t += Bytes(m.unicode ? 2 * pad : pad, '\0');
            ref::app16(body, 4 + t.size()); ref::app16(body, (m.unicode ? 1 : 0) | other_flags);
            body += t;
        }
    }
    return head + body;
}
static void check_messages(mc::Ctx& c, const resource_directory& root, uint32_t lang, const Msgs& all)
{
    const pe_resource_viewer v(root);
    const resource_message_list_reader r(v);
    for(int how = 0; how < 3; ++how)
    {
        c.step();
        const resource_message_list l = how == 2 ? resource_message_list_reader::parse_message_list(v.get_resource_data_by_id(pe_resource_viewer::resource_message_table, 1).get_data()) : how ? r.get_message_table_by_id(1) : r.get_message_table_by_id_lang(lang, 1);
        MC_REQUIRE(c, l.size() == all.size(), "message-count", "%zu messages, should be %zu", l.size(), all.size());
        Msgs::const_iterator w = all.begin();
        for(resource_message_list::const_iterator it = l.begin(); it != l.end(); ++it, ++w)
        {
            MC_REQUIRE(c, it->first == w->first, "message-id", "message %#x, should be %#x", it->first, w->first);
            MC_REQUIRE(c, it->second.is_unicode() == w->second.unicode, "message-encoding", "message %#x has the other encoding", it->first);
            MC_REQUIRE(c, it->second.get_ansi_string() == (w->second.unicode ? Bytes() : w->second.ansi) && it->second.get_unicode_string() == (w->second.unicode ? w->second.wide : std::wstring()), "message-text", "message %#x differs", it->first);
        }
    }
    bool ok = true;
    try { r.get_message_table_by_id_lang(lang + 1, 1); } catch(const pe_exception&) { ok = false; }
    MC_REQUIRE(c, !ok, "other-language", "a table of another language was found");
    ok = true;
    try { r.get_message_table_by_id(1, 1); } catch(const pe_exception&) { ok = false; }
    MC_REQUIRE(c, !ok, "index-past", "a table past the last one was found");
}
static void messages(mc::Ctx& c)
{
    static const Block kinds[] = { { 1, 1 }, { 5, 6 }, { 0, 0 }, { 0x100, 0x102 }, { 0xffffffffu, 0xffffffffu }, { 0xfffffffeu, 0xffffffffu }, { 0x7fffffffu, 0x80000000u } };
    const int n = c.choose(4, "blocks");
    std::vector<Block> blocks;
    Msgs all;
    uint32_t texts = 0;
    for(int i = 0; i < n; ++i)
    {
        const Block b = c.pick(kinds, "block");
        blocks.push_back(b);
        for(uint64_t id = b.lo; id <= b.hi; ++id)
        {
            if(all.count(static_cast<uint32_t>(id))) return;
            Msg m;
            const int alt = texts++ < 2 ? c.choose(8, "message") : c.dev(8, "message");
            m.unicode = alt & 1;
            static const char* const a[] = { "a", "Message %1\r\n", "", "\xff\x80z" };
            static const wchar_t* const w[] = { L"", L"b", L"\xffff\x416\xff00", L"wide\r\n" };
            if(m.unicode) m.wide = w[alt / 2]; else m.ansi = a[alt / 2];
            all[static_cast<uint32_t>(id)] = m;
        }
    }
    static const uint32_t gaps[] = { 0, 2, 1 };
    const uint32_t gap = c.pickdev(gaps, "gap"), pad = c.choose(3, "padding");
    static const uint32_t others[] = { 0, 2, 0x8000, 0xfffe };      // bit 0 alone says the encoding
    const uint32_t other = c.pickdev(others, "other flags");
    const bool reversed = n > 1 && c.dev(2, "order");
    Node root, type = res::key(11), table = res::key(1), lang = res::key(0x409);
    lang.leaf = true; lang.data = table_of(blocks, all, gap, reversed, pad, other);
    table.kids.push_back(lang); type.kids.push_back(table); root.kids.push_back(type);
    c.desc("%d blocks, %zu messages, gap %u, padding %u, other flags %#x: %s", n, all.size(), gap, pad, other, mc::hex(lang.data).c_str());
    if(c.dev(2, "in an image")) check_messages(c, through_image(res::to_library(root), n % 2), 0x409, all);
    else check_messages(c, res::to_library(root), 0x409, all);
    c.outcome(mc::hash(lang.data));
    c.trace();
}
// message_table_item
static void items(mc::Ctx& c)
{
    message_table_item it;
    bool uni = false; Bytes a; std::wstring w;
    const int n = mc::tier_pick(4, 5);
    for(int i = 0; i < n; ++i)
    {
        const int op = c.choose(8, "value");
        c.step();
        static const char* const as[] = { "", "x", "y\0", "two words" };
        static const wchar_t* const ws[] = { L"", L"x", L"\xffff", L"two words" };
        const bool make = c.flip("new");
        if(op < 4) { uni = false; a = as[op]; w.clear(); Bytes v = a + Bytes(op == 2 ? 2 : 0, '\0'); if(make) it = message_table_item(v); else it.set_string(v); }
        else { uni = true; a.clear(); w = ws[op - 4]; std::wstring v = w + std::wstring(op == 6 ? 2 : 0, L'\0'); if(make) it = message_table_item(v); else it.set_string(v); }
        const message_table_item copy(it);
        MC_REQUIRE(c, copy.is_unicode() == uni && copy.get_ansi_string() == a && copy.get_unicode_string() == w, "item", "item differs after step %d", i);
        c.state(mc::mix(op, uni)); c.outcome(op);
    }
}
// Every bundle number; texts, bundles and tables of every size
static void sizes(mc::Ctx& c)
{
    const int w = c.choose(6, "what");
    std::vector<int> ns;
    for(int i = 0; i < mc::tier_pick(130, 700); ++i) ns.push_back(i);
    static const int more[] = { 254, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 4095, 4096, 4097, 32767, 32768, 65527 };
    for(int x : more) ns.push_back(x);
    const int n = w == 0 ? c.choose(4096, "bundle") + 1 : c.pick(ns, "size");
    Node root, lang = res::key(0x409);
    lang.leaf = true;
    c.desc("kind %d, size %d", w, n);
    if(w <= 1)
    {
        const uint32_t id = w ? 2 : n;
        Strings all;
        if(w == 0) { all[(id - 1) * 16] = L"first"; all[(id - 1) * 16 + 15] = L"last"; }
        else { const int at = c.choose(4, "position") * 5; all[16 + at] = std::wstring(n, L'Z'); all[16 + (at + 3) % 16] = L"other"; all[16 + at][0]; if(!n) all.erase(16 + at); }
        Node type = res::key(6), table = res::key(id);
        lang.data = bundle(all, id, 0);
        table.kids.push_back(lang); type.kids.push_back(table); root.kids.push_back(type);
        check_strings(c, res::to_library(root), std::vector<std::pair<uint32_t, Strings> >(1, std::make_pair(0x409u, all)), std::vector<uint32_t>(1, id));
    }
    else
    {
        const bool uni = c.flip("Unicode");
        std::vector<Block> blocks;
        Msgs all;
        if(w == 2) { Block b = { 5, 5u + n }; blocks.push_back(b); }                                                                    // one long block
        else if(w == 3) for(int i = 0; i <= n && i < 5000; ++i) { Block b = { static_cast<uint32_t>(i * 3), static_cast<uint32_t>(i * 3 + i % 2) }; blocks.push_back(b); }  // many blocks
        else if(w == 4) { Block b = { 7, 9 }; blocks.push_back(b); }                                                                    // a long message
        else { Block b = { 0xffffffffu - n, 0xffffffffu }; blocks.push_back(b); }
        for(size_t k = 0; k < blocks.size(); ++k)
            for(uint64_t id = blocks[k].lo; id <= blocks[k].hi; ++id)
            {
                Msg m; m.unicode = uni ^ (id % 3 == 1);
                const Bytes t = "m" + std::to_string(id);
                if(m.unicode) m.wide.assign(t.begin(), t.end()); else m.ansi = t;
                if(w == 4 && id == 8) { if(m.unicode) m.wide.assign(n / 2, L'W'); else m.ansi.assign(n, 'A'); }
                all[static_cast<uint32_t>(id)] = m;
            }
        Node type = res::key(11), table = res::key(1);
        lang.data = table_of(blocks, all, 0, false, 0);
        table.kids.push_back(lang); type.kids.push_back(table); root.kids.push_back(type);
        check_messages(c, res::to_library(root), 0x409, all);
    }
    c.outcome(mc::hash(lang.data));
}
namespace mc
{
const Part parts[] = {
    { "strings", strings, 2, 3, "string bundles with 1024 (8192) sets of present strings and with up to 2 (3) texts of 7 kinds at any positions, 4 bundle numbers, with padding; all 16 identifiers looked up in every way" },
    { "languages", languages, 2, 3, "2 bundles in up to 2 (3) languages with up to 2 (3) texts of 7 kinds in written images of both kinds" },
    { "messages", messages, 1, 2, "message tables of up to 3 blocks of 7 kinds with texts of 8 kinds, padding, gaps, flags and block orders" },
    { "sizes", sizes, 0, 0, "every bundle number; texts, blocks and messages of every size up to 129 (699) and around powers of two to 65527" },
    { "items", items, 0, 0, "all sequences of 4 (5) assignments to a message" },
};
const int part_count = sizeof(parts) / sizeof(parts[0]);
}
