// Resource trees as plain values: built for the library, read from it, read from and laid out into loader memory independently.
#pragma once
#include "mc.h"
#include "ref.h"
#include "util.h"

namespace res
{
using ref::Bytes;
struct Node
{
    bool named; std::wstring name; uint32_t id;     // the entry that names this node (not for the root)
    bool leaf; Bytes data; uint32_t cp;             // leaves
    uint32_t chars, time; uint16_t maj, min;        // directories
    std::vector<Node> kids;
    Node() : named(false), id(0), leaf(false), cp(0), chars(0), time(0), maj(0), min(0) {}
    bool same_key(const Node& o) const { return named == o.named && (named ? name == o.name : id == o.id); }
};
inline bool before(const Node& a, const Node& b)
{
    if(a.named != b.named) return a.named;
    return a.named ? a.name < b.name : a.id < b.id;
}
inline void sort(Node& n)
{
    std::sort(n.kids.begin(), n.kids.end(), before);
    for(size_t i = 0; i < n.kids.size(); ++i) sort(n.kids[i]);
}
inline Node key(uint32_t id) { Node n; n.id = id; return n; }
inline Node key(const std::wstring& name) { Node n; n.named = true; n.name = name; return n; }
inline Bytes key_text(const Node& n)
{
    char b[32];
    if(!n.named) { snprintf(b, sizeof(b), "#%u", n.id); return b; }
    Bytes r = "\"";
    for(size_t i = 0; i < n.name.size() && i < 12; ++i) { if(n.name[i] > 32 && n.name[i] < 127) r += static_cast<char>(n.name[i]); else { snprintf(b, sizeof(b), "\\%x", static_cast<unsigned>(n.name[i])); r += b; } }
    return r + "\"";
}
inline Bytes text(const Node& n, bool root = true)
{
    Bytes r = root ? "" : key_text(n);
    if(n.leaf) { char b[32]; snprintf(b, sizeof(b), "=%zu", n.data.size()); return r + b; }
    r += "{";
    for(size_t i = 0; i < n.kids.size() && i < 8; ++i) r += (i ? "," : "") + text(n.kids[i], false);
    return r + (n.kids.size() > 8 ? ",..}" : "}");
}
// The first difference between two trees, or nothing
inline Bytes diff(const Node& a, const Node& b, const Bytes& at = "", bool root = true)
{
    if(!root && !a.same_key(b)) return at + ": entry " + key_text(a) + " instead of " + key_text(b);
    const Bytes here = root ? at : at + "/" + key_text(a);
    if(a.leaf != b.leaf) return here + (a.leaf ? ": data instead of a directory" : ": a directory instead of data");
    if(a.leaf)
    {
        if(a.cp != b.cp) return here + ": other code page";
        if(a.data.size() != b.data.size()) return here + ": " + std::to_string(a.data.size()) + " bytes instead of " + std::to_string(b.data.size());
        if(a.data != b.data) return here + ": other bytes";
        return "";
    }
    if(a.chars != b.chars || a.time != b.time || a.maj != b.maj || a.min != b.min) return here + ": other directory attributes";
    if(a.kids.size() != b.kids.size()) return here + ": " + std::to_string(a.kids.size()) + " entries instead of " + std::to_string(b.kids.size());
    for(size_t i = 0; i < a.kids.size(); ++i) { const Bytes d = diff(a.kids[i], b.kids[i], here, false); if(!d.empty()) return d; }
    return "";
}
inline uint64_t hash_of(const Node& n, uint64_t h = 7)
{
    h = mc::mix(h, n.named ? mc::hash(n.name.data(), n.name.size() * sizeof(wchar_t)) : n.id);
    h = mc::mix(h, n.leaf ? mc::mix(mc::hash(n.data), n.cp) : mc::mix(n.chars + n.time, n.maj + (n.min << 16)));
    for(size_t i = 0; i < n.kids.size(); ++i) h = hash_of(n.kids[i], h);
    return mc::mix(h, n.kids.size());
}
// ---------------------------------------------------------------- the library's trees
inline pe_bliss::resource_directory to_library(const Node& n)
{
    pe_bliss::resource_directory d;
    d.set_characteristics(n.chars); d.set_timestamp(n.time); d.set_major_version(n.maj);
    d.get_minor_version(n.min);     // the setter
    for(size_t i = 0; i < n.kids.size(); ++i)
    {
        pe_bliss::resource_directory_entry e;
        const Node& k = n.kids[i];
        if(k.named) e.set_name(k.name); else e.set_id(k.id);
        if(k.leaf) e.add_data_entry(pe_bliss::resource_data_entry(k.data, k.cp)); else e.add_resource_directory(to_library(k));
        d.add_resource_directory_entry(e);
    }
    return d;
}
inline Node from_library(mc::Ctx& c, const pe_bliss::resource_directory& d, bool counts = true)
{
    Node n;
    n.chars = d.get_characteristics(); n.time = d.get_timestamp(); n.maj = d.get_major_version(); n.min = d.get_minor_version();
    uint32_t named = 0, ids = 0;
    const pe_bliss::resource_directory::entry_list& l = d.get_entry_list();
    for(size_t i = 0; i < l.size(); ++i)
    {
        Node k;
        if(l[i].includes_data()) { k.leaf = true; k.data = l[i].get_data_entry().get_data(); k.cp = l[i].get_data_entry().get_codepage(); }
        else k = from_library(c, l[i].get_resource_directory(), counts);
        k.named = l[i].is_named(); k.name = l[i].get_name(); k.id = l[i].get_id();
        ++(k.named ? named : ids);
        MC_REQUIRE(c, k.named ? k.id == 0 : k.name.empty(), "entry-key", "an entry has both a name and an identifier");
        n.kids.push_back(k);
    }
    if(counts) MC_REQUIRE(c, d.get_number_of_named_entries() == named && d.get_number_of_id_entries() == ids, "entry-counts", "a directory counts %u named and %u numbered entries, it has %u and %u", d.get_number_of_named_entries(), d.get_number_of_id_entries(), named, ids);
    return n;
}
// ---------------------------------------------------------------- in loader memory
struct Used { uint32_t from, to; };
inline Node read(const ref::Mem& m, uint32_t root, uint32_t off, std::vector<Used>& used, int depth = 0)
{
    if(depth > 100) throw ref::Err("endless resource directories");
    Node n;
    const uint32_t at = root + off;
    n.chars = m.r32(at); n.time = m.r32(at + 4); n.maj = m.r16(at + 8); n.min = m.r16(at + 10);
    const uint32_t names = m.r16(at + 12), ids = m.r16(at + 14);
    Used u = { at, at + 16 + 8 * (names + ids) }; used.push_back(u);
    for(uint32_t i = 0; i < names + ids; ++i)
    {
        const uint32_t e = at + 16 + 8 * i, k = m.r32(e), v = m.r32(e + 4);
        if((k >> 31 != 0) != (i < names)) throw ref::Err("named entries do not come first");
        Node x;
        if(v >> 31) x = read(m, root, v & 0x7fffffff, used, depth + 1);
        else
        {
            const uint32_t d = root + v, a = m.r32(d), s = m.r32(d + 4);
            x.leaf = true; x.cp = m.r32(d + 8);
            if(m.r32(d + 12)) throw ref::Err("reserved field of a data entry is not zero");
            if(s) x.data = m.bytes(a, s);
            Used w = { d, d + 16 }, b = { a, a + s }; used.push_back(w); if(s) used.push_back(b);
        }
        if(k >> 31)
        {
            const uint32_t s = root + (k & 0x7fffffff), len = m.r16(s);
            x.named = true;
            for(uint32_t j = 0; j < len; ++j) x.name += static_cast<wchar_t>(m.r16(s + 2 + 2 * j));
            Used w = { s, s + 2 + 2 * len }; used.push_back(w);
        }
        else x.id = k;
        n.kids.push_back(x);
    }
    return n;
}
inline Node read(const ref::Mem& m, uint32_t root) { std::vector<Used> u; return read(m, root, 0, u); }
// Nothing lies over something else; everything lies inside from..to
inline Bytes overlap(std::vector<Used> u, uint32_t from, uint32_t to)
{
    std::sort(u.begin(), u.end(), [](const Used& a, const Used& b) { return a.from < b.from; });
    for(size_t i = 0; i < u.size(); ++i)
    {
        if(u[i].from < from || u[i].to > to) return "a part lies outside the reported area";
        if(i && u[i].from < u[i - 1].to) return "two parts overlap";
    }
    return "";
}
inline void put_name(Bytes& b, const std::wstring& n) { ref::app16(b, n.size()); for(size_t i = 0; i < n.size(); ++i) ref::app16(b, n[i]); }
}
