// C31: version information survives writing, editing and reading.
#include "reb.h"
#include "res.h"
using namespace u;
using res::Node;
const char* const mc::check_id = "C31";

typedef std::map<std::wstring, std::wstring> Table;
typedef std::map<std::wstring, Table> Tables;
typedef std::multimap<uint16_t, uint16_t> Trans;
struct Fixed { uint32_t v[10]; };       // file version MS/LS, product version MS/LS, flags, OS, type, subtype, date MS/LS
struct Ver { bool has_fixed; Fixed fixed; Tables tables; Trans trans; };

static Bytes narrow(const std::wstring& w) { Bytes b; for(size_t i = 0; i < w.size() && i < 20; ++i) { char t[8]; if(w[i] > 31 && w[i] < 127) b += static_cast<char>(w[i]); else { snprintf(t, sizeof(t), "\\%x", static_cast<unsigned>(w[i])); b += t; } } return b + (w.size() > 20 ? ".." : ""); }
static Bytes text(const Ver& v)
{
    Bytes r;
    for(Tables::const_iterator t = v.tables.begin(); t != v.tables.end(); ++t)
    {
        r += "[" + narrow(t->first);
        for(Table::const_iterator i = t->second.begin(); i != t->second.end(); ++i) r += " " + narrow(i->first) + "=" + narrow(i->second);
        r += "]";
        if(r.size() > 400) return r + "...";
    }
    char b[32];
    for(Trans::const_iterator t = v.trans.begin(); t != v.trans.end() && r.size() < 600; ++t) { snprintf(b, sizeof(b), " %04x%04x", t->first, t->second); r += b; }
    return r;
}
static file_version_info to_library(const Fixed& f)
{
    file_version_info i;
    i.set_file_version_ms(f.v[0]); i.set_file_version_ls(f.v[1]); i.set_product_version_ms(f.v[2]); i.set_product_version_ls(f.v[3]); i.set_file_flags(f.v[4]);
    i.set_file_os_raw(f.v[5]); i.set_file_type_raw(f.v[6]); i.set_file_subtype(f.v[7]); i.set_file_date_ms(f.v[8]); i.set_file_date_ls(f.v[9]);
    return i;
}
static Fixed from_library(const file_version_info& i)
{
    const Fixed f = { { i.get_file_version_ms(), i.get_file_version_ls(), i.get_product_version_ms(), i.get_product_version_ls(), i.get_file_flags(), i.get_file_os_raw(), i.get_file_type_raw(), i.get_file_subtype(), i.get_file_date_ms(), i.get_file_date_ls() } };
    return f;
}
static bool same_trans(const Trans& a, const Trans& b)
{
    std::vector<std::pair<uint16_t, uint16_t> > x(a.begin(), a.end()), y(b.begin(), b.end());
    std::sort(x.begin(), x.end()); std::sort(y.begin(), y.end());
    return x == y;
}
static void same(mc::Ctx& c, const char* who, const Ver& g, const Ver& w)
{
    MC_REQUIRE(c, g.has_fixed == w.has_fixed, "fixed", "%s: fixed information %d, should be %d", who, g.has_fixed, w.has_fixed);
    for(int i = 0; i < 10; ++i) MC_REQUIRE(c, g.fixed.v[i] == w.fixed.v[i], "fixed", "%s: field %d of the fixed information is %#x, should be %#x", who, i, g.fixed.v[i], w.fixed.v[i]);
    MC_REQUIRE(c, g.tables == w.tables, "strings", "%s: strings are %s, should be %s", who, text(g).c_str(), text(w).c_str());
    MC_REQUIRE(c, same_trans(g.trans, w.trans), "translations", "%s: translations are %s, should be %s", who, text(g).c_str(), text(w).c_str());
}
// ---------------------------------------------------------------- the documented structure, read and written independently
struct Blk { uint32_t len, vlen, type; std::wstring key; uint32_t value, end; };
static std::wstring wide(const Bytes& b, uint32_t at, uint32_t n) { std::wstring r; for(uint32_t i = 0; i < n; ++i) r += static_cast<wchar_t>(ref::get16(b, at + 2 * i)); return r; }
static Blk block(const Bytes& b, uint32_t at, uint32_t limit)
{
    if(at % 4) throw ref::Err("a block is not aligned");
    Blk k;
    k.len = ref::get16(b, at); k.vlen = ref::get16(b, at + 2); k.type = ref::get16(b, at + 4);
    if(k.len < 8 || at + k.len > limit) throw ref::Err("a block does not fit into the one around it");
    uint32_t p = at + 6;
    for(; ref::get16(b, p); p += 2) k.key += static_cast<wchar_t>(ref::get16(b, p));
    k.value = static_cast<uint32_t>(ref::up(p + 2, 4));
    k.end = at + k.len;
    if(p + 2 > k.end) throw ref::Err("a key does not fit into its block");
    return k;
}
static Ver parse(const Bytes& b)
{
    Ver r; r.has_fixed = false; memset(&r.fixed, 0, sizeof(r.fixed));
    const Blk root = block(b, 0, static_cast<uint32_t>(b.size()));
    if(root.key != L"VS_VERSION_INFO") throw ref::Err("root key");
    if(root.len != b.size()) throw ref::Err("root length");
    if(root.vlen)
    {
        if(root.vlen != 52 || root.type != 0) throw ref::Err("fixed information");
        uint32_t d[13];
        for(int i = 0; i < 13; ++i) d[i] = ref::get32(b, root.value + 4 * i);
        if(d[0] != 0xfeef04bd || d[1] != 0x10000) throw ref::Err("signature");
        if(d[6] != 0x3f) throw ref::Err("flags mask");
        const Fixed f = { { d[2], d[3], d[4], d[5], d[7], d[8], d[9], d[10], d[11], d[12] } };
        r.has_fixed = true; r.fixed = f;
    }
    for(uint32_t at = static_cast<uint32_t>(ref::up(root.value + root.vlen, 4)); at < root.end; )
    {
        const Blk k = block(b, at, root.end);
        const bool str = k.key == L"StringFileInfo";
        if(!str && k.key != L"VarFileInfo") throw ref::Err("unknown block");
        if(k.vlen) throw ref::Err("value of a file information block");
        for(uint32_t t = k.value; t < k.end; )
        {
            const Blk x = block(b, t, k.end);
            if(str)
            {
                if(x.vlen) throw ref::Err("value of a string table");
                if(r.tables.count(x.key)) throw ref::Err("a table appears twice");
                Table& tab = r.tables[x.key];
                for(uint32_t s = x.value; s < x.end; )
                {
                    const Blk y = block(b, s, x.end);
                    if(y.type != 1) throw ref::Err("type of a string");
                    if(y.vlen && y.value + 2 * y.vlen > y.end) throw ref::Err("a string does not fit into its block");
                    std::wstring v = wide(b, y.value, y.vlen);
                    while(!v.empty() && !v.back()) v.pop_back();
                    if(tab.count(y.key)) throw ref::Err("a string appears twice");
                    tab[y.key] = v;
                    s = static_cast<uint32_t>(ref::up(y.end, 4));
                }
            }
            else
            {
                if(x.key != L"Translation" || x.type != 0 || x.vlen % 4 || x.value + x.vlen > x.end) throw ref::Err("translation block");
                for(uint32_t i = 0; i < x.vlen; i += 4) r.trans.insert(std::make_pair(ref::get16(b, x.value + i), ref::get16(b, x.value + i + 2)));
            }
            t = static_cast<uint32_t>(ref::up(x.end, 4));
        }
        at = static_cast<uint32_t>(ref::up(k.end, 4));
    }
    return r;
}
static Bytes blk(const std::wstring& key, uint32_t vlen, uint32_t type, const Bytes& value, const Bytes& children, bool trailing)
{
    Bytes b(6, 0);
    for(size_t i = 0; i < key.size(); ++i) ref::app16(b, key[i]);
    ref::app16(b, 0);
    if(!value.empty() || !children.empty()) b.resize(ref::up(b.size(), 4), 0);
    b += value;
    if(!children.empty()) { b.resize(ref::up(b.size(), 4), 0); b += children; }
    ref::put16(b, 0, b.size()); ref::put16(b, 2, vlen); ref::put16(b, 4, type);
    if(trailing) b.resize(ref::up(b.size(), 4), 0);
    return b;
}
// form: 1 translations first, 2 no terminator in values, 4 other types, 8 unknown var block, 16 two string blocks
static Bytes encode(const Ver& v, int form)
{
    std::vector<Bytes> parts;
    Bytes tabs[2];
    int n = 0;
    for(Tables::const_iterator t = v.tables.begin(); t != v.tables.end(); ++t, ++n)
    {
        Bytes strs;
        for(Table::const_iterator i = t->second.begin(); i != t->second.end(); ++i)
        {
            Bytes val;
            for(size_t k = 0; k < i->second.size(); ++k) ref::app16(val, i->second[k]);
            if(!(form & 2)) ref::app16(val, 0);
            strs.resize(ref::up(strs.size(), 4), 0);
            strs += blk(i->first, static_cast<uint32_t>(val.size() / 2), 1, val, "", false);
        }
        Bytes& o = tabs[(form & 16) ? n % 2 : 0];
        o.resize(ref::up(o.size(), 4), 0);
        o += blk(t->first, 0, form & 4 ? 0 : 1, "", strs, false);
    }
    for(int i = 0; i < 2; ++i) if(!tabs[i].empty()) parts.push_back(blk(L"StringFileInfo", 0, 1, "", tabs[i], false));
    if(!v.trans.empty())
    {
        Bytes tr;
        for(Trans::const_iterator i = v.trans.begin(); i != v.trans.end(); ++i) { ref::app16(tr, i->first); ref::app16(tr, i->second); }
        Bytes vars;
        if(form & 8) vars = blk(L"Other", 4, 0, "\1\2\3\4", "", true);
        vars += blk(L"Translation", static_cast<uint32_t>(tr.size()), 0, tr, "", false);
        parts.insert(form & 1 ? parts.begin() : parts.end(), blk(L"VarFileInfo", 0, 1, "", vars, false));
    }
    Bytes kids;
    for(size_t i = 0; i < parts.size(); ++i) { kids.resize(ref::up(kids.size(), 4), 0); kids += parts[i]; }
    Bytes fix;
    if(v.has_fixed)
    {
        ref::app32(fix, 0xfeef04bd); ref::app32(fix, 0x10000);
        for(int i = 0; i < 4; ++i) ref::app32(fix, v.fixed.v[i]);
        ref::app32(fix, form & 4 ? 0 : 0x3f);
        for(int i = 4; i < 10; ++i) ref::app32(fix, v.fixed.v[i]);
    }
    return blk(L"VS_VERSION_INFO", static_cast<uint32_t>(fix.size()), 0, fix, kids, false);
}
static Ver library_read(const resource_directory& root, uint32_t lang, int index)
{
    const pe_resource_viewer v(root);
    const resource_version_info_reader r(v);
    Ver g; g.has_fixed = true;
    lang_string_values_map s; translation_values_map t;
    g.fixed = from_library(index >= 0 ? r.get_version_info(s, t, static_cast<uint32_t>(index)) : r.get_version_info_by_lang(s, t, lang));
    g.tables = s; g.trans = t;
    return g;
}
static resource_directory through_image(const resource_directory& d, bool pe64)
{
    pe_base pe(fresh(pe64));
    section& s = add_sec(pe, "rsrc", Bytes(1, 'r'));
    resource_directory copy(d);
    rebuild_resources(pe, copy, s);
    const Bytes f = write_pe(pe);
    return get_resources(open_pe(f, false, false));
}
static Bytes stored(const resource_directory& root) { return root.entry_by_id(16).get_resource_directory().entry_by_id(1).get_resource_directory().get_entry_list().at(0).get_data_entry().get_data(); }
static void write_and_read(mc::Ctx& c, const Ver& v, int lang, int image)
{
    resource_directory root;
    pe_resource_manager m(root);
    resource_version_info_writer w(m);
    c.step();
    w.set_version_info(to_library(v.fixed), v.tables, v.trans, lang, 1200, 5);
    for(int round = 0; round < 2; ++round)
    {
        Ver own;
        try { own = parse(stored(root)); } catch(const ref::Err& e) { c.fail("structure", "%s in %s", e.what.c_str(), mc::hex(stored(root), 600).c_str()); }
        same(c, "independent reader", own, v);
        same(c, "by language", library_read(root, lang, -1), v);
        same(c, "by index", library_read(root, lang, 0), v);
        if(!image) break;
        if(round == 0) root = through_image(root, image == 1);
    }
    // what was read is written again identically
    resource_directory again;
    pe_resource_manager m2(again);
    const Ver g = library_read(root, lang, 0);
    resource_version_info_writer(m2).set_version_info(to_library(g.fixed), g.tables, g.trans, lang);
    MC_REQUIRE(c, stored(again) == stored(root), "rewrite", "what was read is written differently");
    c.outcome(mc::hash(stored(root)));
    c.trace();
}
static const wchar_t* const tkeys[] = { L"040904b0", L"040904B0", L"x", L"", L"\xffff\x416" };
static const wchar_t* const skeys[] = { L"A", L"a", L"CompanyName", L"", L"abc", L"FileDescription", L"\x44f" };
static std::wstring value(int alt)
{
    switch(alt) { case 0: return L"v"; case 1: return L""; case 2: return L"ab"; case 3: return L"xyz"; case 4: return std::wstring(L"a\0b", 3); case 5: return L"\x1\xffff"; default: return std::wstring(500, L'w'); }
}
static Ver choose_ver(mc::Ctx& c, int maxtab, int maxstr)
{
    Ver v; v.has_fixed = true;
    for(int i = 0; i < 10; ++i) { static const uint32_t alts[] = { 0x00010002, 0, 0xffffffffu }; const int k = c.dev(3, "fixed field"); v.fixed.v[i] = k ? alts[k] : alts[0] + i; }
    const int n = c.choose(maxtab + 1, "tables");
    for(int i = 0; i < n; ++i)
    {
        Table& t = v.tables[tkeys[(i + c.dev(5, "table key")) % 5]];
        const int k = c.choose(maxstr + 1, "strings");
        for(int j = 0; j < k; ++j) t[skeys[(j + c.dev(7, "string key")) % 7]] = value(c.dev(7, "value"));
    }
    const int k = c.choose(4, "translations");
    for(int i = 0; i < k; ++i) { static const uint16_t ids[] = { 0x409, 0x419, 0, 0xffff }; v.trans.insert(std::make_pair(ids[(i + c.dev(4, "language")) % 4], c.dev(2, "code page") ? 0xffff : 1200)); }
    return v;
}
static void contents(mc::Ctx& c)
{
    const Ver v = choose_ver(c, 2, mc::tier_pick(2, 3));
    const int image = c.dev(3, "image");
    c.desc("%s", text(v).c_str());
    write_and_read(c, v, 0x409, image);
}
// All string lengths: every parity of keys and values in up to three strings
static void lengths(mc::Ctx& c)
{
    Ver v; v.has_fixed = true;
    memset(&v.fixed, 0, sizeof(v.fixed));
    const int max = mc::tier_pick(4, 5);
    v.tables[std::wstring(c.choose(max, "table key length"), L'T')];
    const int n = 1 + c.choose(2, "strings");
    for(int i = 0; i < n; ++i) { std::wstring k(c.choose(max, "key length"), L'k'); if(i) k = L"m" + k; v.tables.begin()->second[k] = std::wstring(c.choose(max, "value length"), static_cast<wchar_t>(L'a' + i)); }
    if(c.flip("second table")) v.tables[L"zz"][L"s"] = L"t";
    if(c.flip("translation")) v.trans.insert(std::make_pair(1, 2));
    c.desc("%s", text(v).c_str());
    write_and_read(c, v, 0, 0);
}
static void foreign(mc::Ctx& c)
{
    Ver v = choose_ver(c, 2, 2);
    v.has_fixed = !c.dev(2, "no fixed information");
    const int form = c.choose(32, "form");
    Node root, type = res::key(16), one = res::key(1), lang = res::key(0x409);
    lang.leaf = true; lang.data = encode(v, form);
    Ver own;
    try { own = parse(form & (4 | 8) ? encode(v, form & ~(4 | 8)) : lang.data); } catch(const ref::Err& e) { c.fail("harness", "%s in %s", e.what.c_str(), mc::hex(lang.data, 300).c_str()); }
    one.kids.push_back(lang); type.kids.push_back(one); root.kids.push_back(type);
    if(!v.has_fixed) memset(&v.fixed, 0, sizeof(v.fixed));
    // what lies behind the version information (whose length its first field states) is no part of it
    switch(c.dev(5, "behind"))
    {
    case 1: lang.data += Bytes(4, 0); break;
    case 2: lang.data += Bytes(61, 0); break;
    case 3: lang.data += img::pattern(0x60, 9); break;
    case 4: { Ver more; more.has_fixed = true; memset(&more.fixed, 0, sizeof(more.fixed)); more.tables[L"behind"][L"x"] = L"y"; more.trans.insert(std::make_pair(0x1234, 0x5678)); lang.data += Bytes(ref::up(lang.data.size(), 4) - lang.data.size(), 0) + encode(more, 0).substr(92); }
    }
    root.kids[0].kids[0].kids[0].data = lang.data;
    same(c, "own reader", own, v);
    v.has_fixed = true;
    c.desc("form %d %s", form, text(v).c_str());
    const resource_directory d = res::to_library(root);
    c.step();
    same(c, "by language", library_read(d, 0x409, -1), v);
    same(c, "by index", library_read(d, 0x409, 0), v);
    c.outcome(mc::hash(lang.data));
    c.trace();
}
// Sizes up to and past what 16-bit lengths can say
static void sizes(mc::Ctx& c)
{
    Ver v; v.has_fixed = true;
    memset(&v.fixed, 0, sizeof(v.fixed));
    const int mode = c.choose(5, "what");
    if(mode == 0) v.tables[L"040904b0"][L"k"] = std::wstring(32600 + c.choose(120, "length"), L'v');
    if(mode == 1) v.tables[L"040904b0"][std::wstring(32600 + c.choose(120, "length"), L'k')] = L"v";
    if(mode == 2) { const int n = 16300 + c.choose(120, "translations"); for(int i = 0; i < n; ++i) v.trans.insert(std::make_pair(i, i % 7)); }
    if(mode == 3) { const int n = 30 + c.choose(120, "strings"); for(int i = 0; i < n; ++i) v.tables[i % 2 ? L"a" : L"b"][L"key" + std::to_wstring(i)] = std::wstring(300 + i, L'v'); }
    static const wchar_t* const bad[] = { L"ok", L"\x10000", L"a\x1f600" };
    int alt = 0;
    if(mode == 4) { alt = c.choose(3, "text"); const int where = c.choose(3, "where"); v.tables[where == 0 ? bad[alt] : L"t"][where == 1 ? bad[alt] : L"k"] = where == 2 ? bad[alt] : L"v"; }
    uint64_t total = 92;
    if(!v.tables.empty()) total += 36;
    for(Tables::const_iterator t = v.tables.begin(); t != v.tables.end(); ++t)
    {
        total += ref::up(8 + 2 * t->first.size(), 4);
        for(Table::const_iterator i = t->second.begin(); i != t->second.end(); ++i) total += ref::up(8 + 2 * i->first.size(), 4) + ref::up(2 + 2 * i->second.size(), 4);
    }
    if(!v.trans.empty()) total += 64 + 4 * v.trans.size();
    const bool expressible = total <= 0xffff && !alt;
    c.desc("mode %d, %llu bytes", mode, static_cast<unsigned long long>(total));
    resource_directory root;
    pe_resource_manager m(root);
    Ver old = v; old.tables.clear(); old.trans.clear(); old.fixed.v[0] = 0x77;
    resource_version_info_writer w(m);
    w.set_version_info(to_library(old.fixed), old.tables, old.trans, 0);
    bool ok = true;
    c.step();
    try { w.set_version_info(to_library(v.fixed), v.tables, v.trans, 0); } catch(const pe_exception&) { ok = false; }
    MC_REQUIRE(c, ok == expressible, "refusal", "%llu bytes were %s", static_cast<unsigned long long>(total), ok ? "accepted" : "refused");
    if(ok) MC_REQUIRE(c, stored(root).size() == total, "total", "%zu bytes instead of %llu", stored(root).size(), static_cast<unsigned long long>(total));
    same(c, ok ? "written" : "refused", library_read(root, 0, 0), ok ? v : old);
    if(ok) same(c, "independent reader", parse(stored(root)), v);
    c.outcome(mc::mix(mode, total));
}
// Many tables, strings and translations
static void many(mc::Ctx& c)
{
    Ver v; v.has_fixed = true;
    memset(&v.fixed, 0x21, sizeof(v.fixed));
    const int w = c.choose(6, "what"), n = c.choose(mc::tier_pick(66, 140), "number"), pat = c.choose(2, "pattern");
    if(w == 0) for(int i = 0; i < n; ++i) v.tables[L"04" + std::to_wstring(i * 7 % 97)][L"k" + std::to_wstring(i)] = std::wstring(i % 4, L'v');
    if(w == 1) for(int i = 0; i < n; ++i) v.tables[L"040904b0"][std::wstring(pat ? 3 : i % 5, L'k') + std::to_wstring(i)] = std::wstring(pat ? i % 3 : 6, L'v');
    if(w == 2) for(int i = 0; i < n; ++i) v.trans.insert(std::make_pair(static_cast<uint16_t>(pat ? 0x409 : 0x7ff0 + i), static_cast<uint16_t>(pat ? 0xfff0 + i : 1200)));
    if(w == 3) v.tables[L"040904b0"][L"key"] = std::wstring(n, L'v');
    if(w == 4) v.tables[L"040904b0"][std::wstring(n, L'k')] = L"value";
    if(w == 5) v.tables[std::wstring(n, L't')][L"key"] = L"value";
    if(w >= 3 && pat) { v.tables[L"z"][L"other"] = L"text"; v.trans.insert(std::make_pair(0x409, 1200)); }
    write_and_read(c, v, 0x409, n % 3);
    c.outcome(mc::mix(w, n * 2 + pat));
    c.trace();
}
// ---------------------------------------------------------------- editing
static const wchar_t* const dflt = L"041904b0";
struct Model { Tables t; Trans tr; };
static void add_tr(Model& m, uint16_t l, uint16_t cp)
{
    for(Trans::const_iterator i = m.tr.begin(); i != m.tr.end(); ++i) if(i->first == l && i->second == cp) return;
    m.tr.insert(std::make_pair(l, cp));
}
static void ids_of(const std::wstring& s, uint16_t& l, uint16_t& cp)
{
    uint32_t x = 0;
    for(size_t i = 0; i < s.size(); ++i) { const wchar_t ch = s[i]; x = x * 16 + (ch >= L'0' && ch <= L'9' ? ch - L'0' : (ch | 32) - L'a' + 10); }
    l = static_cast<uint16_t>(x >> 16); cp = static_cast<uint16_t>(x);
}
static const Table* pick_table(const Model& m, const std::wstring& tr)
{
    if(m.t.empty()) return 0;
    Tables::const_iterator i = m.t.find(tr.empty() ? dflt : tr);
    if(i == m.t.end()) { if(!tr.empty()) return 0; i = m.t.begin(); }
    return &i->second;
}
typedef void (version_info_editor::*Setter)(const std::wstring&, const std::wstring&);
typedef const std::wstring (version_info_viewer::*Getter)(const std::wstring&) const;
static const wchar_t* const props[] = { L"CompanyName", L"FileDescription", L"FileVersion", L"InternalName", L"LegalCopyright", L"OriginalFilename", L"ProductName", L"ProductVersion" };
static const Setter setters[] = { &version_info_editor::set_company_name, &version_info_editor::set_file_description, &version_info_editor::set_file_version, &version_info_editor::set_internal_name,
    &version_info_editor::set_legal_copyright, &version_info_editor::set_original_filename, &version_info_editor::set_product_name, &version_info_editor::set_product_version };
static const Getter getters[] = { &version_info_viewer::get_company_name, &version_info_viewer::get_file_description, &version_info_viewer::get_file_version, &version_info_viewer::get_internal_name,
    &version_info_viewer::get_legal_copyright, &version_info_viewer::get_original_filename, &version_info_viewer::get_product_name, &version_info_viewer::get_product_version };
static const wchar_t* const trs[] = { L"", L"041904b0", L"040904e4", L"040904E4", L"00000000", L"04190000" };
static void compare(mc::Ctx& c, const Model& m, const lang_string_values_map& s, const translation_values_map& t)
{
    MC_REQUIRE(c, s == m.t, "edit-strings", "strings differ from the model");
    MC_REQUIRE(c, same_trans(t, m.tr), "edit-translations", "translations differ from the model");
    const version_info_viewer v(s, t);
    // listing
    std::vector<std::wstring> l = v.get_translation_list(), w;
    for(Trans::const_iterator i = m.tr.begin(); i != m.tr.end(); ++i) { wchar_t b[16]; swprintf(b, 16, L"%04x%04x", i->first, i->second); w.push_back(b); }
    std::sort(l.begin(), l.end()); std::sort(w.begin(), w.end());
    MC_REQUIRE(c, l == w, "translation-list", "the list of translations differs");
    for(int k = 0; k < 6; ++k)
        for(int p = 0; p < 3; ++p)
        {
            const wchar_t* name = p == 2 ? L"Other" : props[p];
            const Table* tab = pick_table(m, trs[k]);
            const bool there = tab && tab->count(name);
            const std::wstring want = there ? tab->find(name)->second : L"";
            MC_REQUIRE(c, v.get_property(name, trs[k]) == want, "get", "property %d of translation %d is \"%s\"", p, k, narrow(v.get_property(name, trs[k])).c_str());
            bool ok = true;
            try { MC_REQUIRE(c, v.get_property(name, trs[k], true) == want, "get", "property %d of translation %d", p, k); } catch(const pe_exception&) { ok = false; }
            MC_REQUIRE(c, ok == there, "absent", "property %d of translation %d is %s", p, k, ok ? "found" : "absent");
            if(p < 2) MC_REQUIRE(c, (v.*getters[p])(trs[k]) == want, "get-named", "named property %d of translation %d", p, k);
        }
}
static void edits(mc::Ctx& c)
{
    Model m;
    lang_string_values_map s; translation_values_map t;
    const int start = c.choose(3, "start");
    if(start) { m.t[L"040904E4"][L"CompanyName"] = L"old"; add_tr(m, 0x409, 0x4e4); }
    if(start == 2) { m.t[L"zz"]; m.tr.insert(std::make_pair(0x409, 0x4e4)); m.tr.insert(std::make_pair(0x409, 1)); }
    s = m.t; t = m.tr;
    version_info_editor e(s, t);
    const int n = mc::tier_pick(3, 4);
    for(int i = 0; i < n; ++i)
    {
        const int op = c.choose(4, "operation");
        const std::wstring tr = trs[op == 0 ? c.choose(6, "translation") : 1 + c.choose(5, "translation")];
        uint16_t l, cp;
        ids_of(tr, l, cp);
        c.step();
        c.desc("%d %s", op, narrow(tr).c_str());
        if(op == 0)
        {
            const int p = c.choose(2, "property");
            const std::wstring val = i % 2 ? L"" : L"new" + std::to_wstring(i);
            if(i == 1) (e.*setters[p])(val, tr); else e.set_property(props[p], val, tr);
            if(tr.empty())
            {
                if(m.t.empty()) { m.t[dflt]; add_tr(m, 0x419, 0x4b0); }
                (m.t.count(dflt) ? m.t[dflt] : m.t.begin()->second)[props[p]] = val;
            }
            else { if(!m.t.count(tr)) add_tr(m, l, cp); m.t[tr][props[p]] = val; }
        }
        else if(op == 1) { if(c.flip("by numbers")) e.add_translation(l, cp); else e.add_translation(tr); add_tr(m, l, cp); }
        else if(op == 2 || op == 3)
        {
            if(op == 3) e.remove_translation(l, cp); else e.remove_translation(tr);
            for(Tables::iterator k = m.t.begin(); k != m.t.end(); )
            {
                uint16_t a = 0, b = 0;
                const bool hex = k->first.size() == 8;
                if(hex) ids_of(k->first, a, b);
                if(hex && a == l && b == cp) m.t.erase(k++); else ++k;
            }
            for(Trans::iterator k = m.tr.begin(); k != m.tr.end(); ++k) if(k->first == l && k->second == cp) { m.tr.erase(k); break; }
        }
        compare(c, m, s, t);
        uint64_t h = 3;
        for(Tables::const_iterator k = m.t.begin(); k != m.t.end(); ++k) { h = mc::mix(h, mc::hash(k->first.data(), k->first.size() * 4)); for(Table::const_iterator x = k->second.begin(); x != k->second.end(); ++x) h = mc::mix(h, mc::mix(mc::hash(x->first.data(), x->first.size() * 4), x->second.size())); }
        for(Trans::const_iterator k = m.tr.begin(); k != m.tr.end(); ++k) h = mc::mix(h, k->first * 65536u + k->second);
        c.state(h); c.outcome(h);
    }
    Ver v; v.has_fixed = true; memset(&v.fixed, 0, sizeof(v.fixed)); v.tables = s; v.trans = t;
    resource_directory root;
    pe_resource_manager rm(root);
    resource_version_info_writer(rm).set_version_info(to_library(v.fixed), s, t, 1);
    same(c, "written after editing", library_read(root, 1, 0), v);
    c.trace();
}
// Every named property with every other one
static void named(mc::Ctx& c)
{
    lang_string_values_map s; translation_values_map t;
    version_info_editor e(s, t);
    const int a = c.choose(8, "first"), b = c.choose(8, "second");
    const std::wstring tr = c.flip("translation") ? L"040904b0" : L"";
    c.step(2);
    (e.*setters[a])(L"1", tr);
    (e.*setters[b])(L"2", tr);
    for(int i = 0; i < 8; ++i)
    {
        const std::wstring want = i == b ? L"2" : i == a ? L"1" : L"";
        MC_REQUIRE(c, (e.*getters[i])(tr) == want && e.get_property(props[i], tr) == want, "named", "property %d after setting %d and %d", i, a, b);
    }
    MC_REQUIRE(c, s.size() == 1 && s.begin()->second.size() == (a == b ? 1u : 2u) && t.size() == 1, "named-maps", "maps after setting %d and %d", a, b);
    c.outcome(a * 8 + b);
}
// Languages: set, replace, remove
static void languages(mc::Ctx& c)
{
    static const uint32_t langs[] = { 0, 0x409, 0x419 };
    std::vector<std::pair<uint32_t, uint32_t> > model;
    resource_directory root;
    pe_resource_manager m(root);
    resource_version_info_writer w(m);
    const int n = mc::tier_pick(5, 6);
    for(int i = 0; i < n; ++i)
    {
        const int op = c.choose(2, "operation"), k = c.choose(3, "language");
        size_t at = 0;
        while(at < model.size() && model[at].first != langs[k]) ++at;
        c.step();
        if(op == 0)
        {
            Fixed f; memset(&f, 0, sizeof(f)); f.v[0] = i + 1;
            w.set_version_info(to_library(f), Tables(), Trans(), langs[k]);
            if(at < model.size()) model[at].second = i + 1; else model.push_back(std::make_pair(langs[k], i + 1));
        }
        else
        {
            const bool r = w.remove_version_info(langs[k]);
            MC_REQUIRE(c, r == (at < model.size()), "remove", "removal reported %d", r);
            if(r) model.erase(model.begin() + at);
        }
        uint64_t h = 1;
        for(int x = 0; x < 3; ++x)
        {
            uint32_t want = 0;
            for(size_t j = 0; j < model.size(); ++j) if(model[j].first == langs[x]) want = model[j].second;
            bool ok = true; Ver g;
            try { g = library_read(root, langs[x], -1); } catch(const pe_exception&) { ok = false; }
            MC_REQUIRE(c, ok == (want != 0) && (!ok || g.fixed.v[0] == want), "language", "version information of language %#x", langs[x]);
            h = mc::mix(h, want);
        }
        for(int x = 0; x < 4; ++x)
        {
            bool ok = true;
            try { library_read(root, 0, x); } catch(const pe_exception&) { ok = false; }
            MC_REQUIRE(c, ok == (static_cast<size_t>(x) < model.size()), "index", "index %d of %zu is %s", x, model.size(), ok ? "found" : "missing");
        }
        c.state(h); c.outcome(h);
    }
    c.trace();
}
// Flags, systems and types of the fixed information
static void fixed(mc::Ctx& c)
{
    typedef void (file_version_info::*FlagSet)(bool);
    typedef bool (file_version_info::*FlagGet)() const;
    static const FlagSet set[] = { &file_version_info::set_debug, &file_version_info::set_prerelease, &file_version_info::set_patched, &file_version_info::set_private_build, &file_version_info::set_info_inferred, &file_version_info::set_special_build };
    static const FlagGet get[] = { &file_version_info::is_debug, &file_version_info::is_prerelease, &file_version_info::is_patched, &file_version_info::is_private_build, &file_version_info::is_info_inferred, &file_version_info::is_special_build };
    static const uint32_t bit[] = { 1, 2, 4, 8, 0x10, 0x20 };
    file_version_info f;
    uint32_t flags = c.choose(4, "start") * 0x55555555u;
    f.set_file_flags(flags);
    const int n = mc::tier_pick(3, 4);
    for(int i = 0; i < n; ++i)
    {
        const int k = c.choose(6, "flag"); const bool on = c.flip("on");
        c.step();
        (f.*set[k])(on);
        flags = on ? flags | bit[k] : flags & ~bit[k];
        MC_REQUIRE(c, f.get_file_flags() == flags, "flags", "flags %#x, should be %#x", f.get_file_flags(), flags);
        for(int x = 0; x < 6; ++x) MC_REQUIRE(c, (f.*get[x])() == ((flags & bit[x]) != 0), "flag", "flag %d of %#x", x, flags);
    }
    typedef file_version_info F;
    static const struct { F::file_os_type t; uint32_t v; } os[] = { { F::file_os_dos, 0x10000 }, { F::file_os_os216, 0x20000 }, { F::file_os_os232, 0x30000 }, { F::file_os_nt, 0x40000 }, { F::file_os_wince, 0x50000 },
        { F::file_os_win16, 1 }, { F::file_os_pm16, 2 }, { F::file_os_pm32, 3 }, { F::file_os_win32, 4 }, { F::file_os_dos_win16, 0x10001 }, { F::file_os_dos_win32, 0x10004 }, { F::file_os_os216_pm16, 0x20002 }, { F::file_os_os232_pm32, 0x30003 }, { F::file_os_nt_win32, 0x40004 } };
    static const struct { F::file_type t; uint32_t v; } ty[] = { { F::file_type_application, 1 }, { F::file_type_dll, 2 }, { F::file_type_driver, 3 }, { F::file_type_font, 4 }, { F::file_type_vxd, 5 }, { F::file_type_static_lib, 7 } };
    const int o = c.choose(14, "system"), t = c.choose(6, "type");
    f.set_file_os(os[o].t); f.set_file_type(ty[t].t);
    MC_REQUIRE(c, f.get_file_os_raw() == os[o].v && f.get_file_os() == os[o].t, "os", "system %d is %#x", o, f.get_file_os_raw());
    MC_REQUIRE(c, f.get_file_type_raw() == ty[t].v && f.get_file_type() == ty[t].t, "type", "type %d is %#x", t, f.get_file_type_raw());
    MC_REQUIRE(c, f.get_file_flags() == flags, "flags", "flags changed");
    f.set_file_os_raw(0x77777); f.set_file_type_raw(0x66);
    MC_REQUIRE(c, f.get_file_os() == F::file_os_unknown && f.get_file_type() == F::file_type_unknown && f.get_file_os_raw() == 0x77777 && f.get_file_type_raw() == 0x66, "unknown", "unknown values");
    c.outcome(mc::mix(flags, o * 8 + t));
}
namespace mc
{
const Part parts[] = {
    { "contents", contents, 2, 3, "up to 2 tables with up to 2 (3) strings and up to 3 translations with up to 2 (3) unusual fields, keys, values, translations, written images; read by an independent reader and by the library, and written again" },
    { "lengths", lengths, 0, 0, "all lengths up to 3 (4) of a table key and of keys and values of up to 2 strings" },
    { "foreign", foreign, 1, 2, "the same contents in 32 other well-formed layouts, with zeros, garbage or further blocks behind them, with up to 1 (2) unusual values" },
    { "sizes", sizes, 0, 0, "all total lengths around what 16-bit lengths can say, texts that cannot be stored; outcome: read back or refused with nothing changed" },
    { "many", many, 0, 0, "up to 65 (139) tables, strings or translations, and texts of up to as many characters; outcome: read back" },
    { "edits", edits, 0, 0, "all sequences of 3 (4) edits over 6 translations and 2 properties from 3 starts, against nested maps; then written and read" },
    { "named", named, 0, 0, "all pairs of named properties" },
    { "languages", languages, 0, 0, "all sequences of 5 (6) settings and removals in 3 languages" },
    { "fixed", fixed, 0, 0, "all sequences of 3 (4) flag changes x 14 systems x 6 types" },
};
const int part_count = sizeof(parts) / sizeof(parts[0]);
}
