// C28: adding, replacing, removing and looking up resources behaves like a map.
#include "reb.h"
#include "res.h"
using namespace u;
using res::Node;
const char* const mc::check_id = "C28";

struct Key { bool named; uint32_t id; std::wstring name; };
static Key kid(uint32_t id) { Key k = { false, id, L"" }; return k; }
static Key kname(const std::wstring& n) { Key k = { true, 0, n }; return k; }
static bool eq(const Key& a, const Key& b) { return a.named == b.named && (a.named ? a.name == b.name : a.id == b.id); }
static Node node(const Key& k) { return k.named ? res::key(k.name) : res::key(k.id); }
struct Data { Bytes b; uint32_t cp; };
struct Lang { uint32_t lang; Data d; };
struct Name { Key k; uint32_t time; std::vector<Lang> langs; };
struct Type { Key k; uint32_t time; std::vector<Name> names; };
typedef std::vector<Type> Model;

static Type* find(Model& m, const Key& t) { for(size_t i = 0; i < m.size(); ++i) if(eq(m[i].k, t)) return &m[i]; return 0; }
static Name* find(Model& m, const Key& t, const Key& n) { Type* x = find(m, t); if(x) for(size_t i = 0; i < x->names.size(); ++i) if(eq(x->names[i].k, n)) return &x->names[i]; return 0; }
static Lang* find(Model& m, const Key& t, const Key& n, uint32_t l) { Name* x = find(m, t, n); if(x) for(size_t i = 0; i < x->langs.size(); ++i) if(x->langs[i].lang == l) return &x->langs[i]; return 0; }
static void tidy(Model& m, bool all)
{
    for(size_t i = 0; i < m.size(); )
    {
        for(size_t j = 0; j < m[i].names.size(); ) if(m[i].names[j].langs.empty()) m[i].names.erase(m[i].names.begin() + j); else ++j;
        if(all && m[i].names.empty()) m.erase(m.begin() + i); else ++i;
    }
}
static void add(Model& m, const Key& t, const Key& n, uint32_t l, const Data& d, uint32_t time)
{
    if(!find(m, t)) { Type x; x.k = t; x.time = time; m.push_back(x); }
    if(!find(m, t, n)) { Name x; x.k = n; x.time = time; find(m, t)->names.push_back(x); }
    if(Lang* x = find(m, t, n, l)) x->d = d;
    else { Lang y; y.lang = l; y.d = d; find(m, t, n)->langs.push_back(y); }
}
static bool remove(Model& m, const Key& t) { for(size_t i = 0; i < m.size(); ++i) if(eq(m[i].k, t)) { m.erase(m.begin() + i); return true; } return false; }
static bool remove(Model& m, const Key& t, const Key& n)
{
    Name* x = find(m, t, n);
    if(!x) return false;
    x->langs.clear(); tidy(m, true);
    return true;
}
static bool remove(Model& m, const Key& t, const Key& n, uint32_t l)
{
    Name* x = find(m, t, n);
    if(!find(m, t, n, l)) return false;
    for(size_t i = 0; i < x->langs.size(); ++i) if(x->langs[i].lang == l) { x->langs.erase(x->langs.begin() + i); break; }
    tidy(m, true);
    return true;
}
static Node tree(const Model& m)
{
    Node r;
    for(size_t i = 0; i < m.size(); ++i)
    {
        Node t = node(m[i].k); t.time = m[i].time;
        for(size_t j = 0; j < m[i].names.size(); ++j)
        {
            Node n = node(m[i].names[j].k); n.time = m[i].names[j].time;
            for(size_t k = 0; k < m[i].names[j].langs.size(); ++k) { const Lang& x = m[i].names[j].langs[k]; Node l = res::key(x.lang); l.leaf = true; l.data = x.d.b; l.cp = x.d.cp; n.kids.push_back(l); }
            t.kids.push_back(n);
        }
        r.kids.push_back(t);
    }
    return r;
}
// ---------------------------------------------------------------- the library's operations by key
typedef pe_resource_viewer V;
static V::resource_type ty(const Key& k) { return static_cast<V::resource_type>(k.id); }
static void do_add(pe_resource_manager& m, const Key& t, const Key& n, uint32_t l, const Bytes& d, uint32_t cp, uint32_t time)
{
    if(t.named) { if(n.named) m.add_resource(d, t.name, n.name, l, cp, time); else m.add_resource(d, t.name, n.id, l, cp, time); }
    else { if(n.named) m.add_resource(d, ty(t), n.name, l, cp, time); else m.add_resource(d, ty(t), n.id, l, cp, time); }
}
static bool do_remove(pe_resource_manager& m, const Key& t) { return t.named ? m.remove_resource(t.name) : m.remove_resource_type(ty(t)); }
static bool do_remove(pe_resource_manager& m, const Key& t, const Key& n)
{
    if(t.named) return n.named ? m.remove_resource(t.name, n.name) : m.remove_resource(t.name, n.id);
    return n.named ? m.remove_resource(ty(t), n.name) : m.remove_resource(ty(t), n.id);
}
static bool do_remove(pe_resource_manager& m, const Key& t, const Key& n, uint32_t l)
{
    if(t.named) return n.named ? m.remove_resource(t.name, n.name, l) : m.remove_resource(t.name, n.id, l);
    return n.named ? m.remove_resource(ty(t), n.name, l) : m.remove_resource(ty(t), n.id, l);
}
static resource_data_info data_by_index(const V& v, const Key& t, const Key& n, uint32_t i)
{
    if(t.named) return n.named ? v.get_resource_data_by_name(t.name, n.name, i) : v.get_resource_data_by_id(t.name, n.id, i);
    return n.named ? v.get_resource_data_by_name(ty(t), n.name, i) : v.get_resource_data_by_id(ty(t), n.id, i);
}
static resource_data_info data_by_lang(const V& v, const Key& t, const Key& n, uint32_t l)
{
    if(t.named) return n.named ? v.get_resource_data_by_name(l, t.name, n.name) : v.get_resource_data_by_id(l, t.name, n.id);
    return n.named ? v.get_resource_data_by_name(l, ty(t), n.name) : v.get_resource_data_by_id(l, ty(t), n.id);
}
static std::vector<uint32_t> langs_of(const V& v, const Key& t, const Key& n)
{
    if(t.named) return n.named ? v.list_resource_languages(t.name, n.name) : v.list_resource_languages(t.name, n.id);
    return n.named ? v.list_resource_languages(ty(t), n.name) : v.list_resource_languages(ty(t), n.id);
}
static uint32_t lang_count(const V& v, const Key& t, const Key& n)
{
    if(t.named) return n.named ? v.get_language_count(t.name, n.name) : v.get_language_count(t.name, n.id);
    return n.named ? v.get_language_count(ty(t), n.name) : v.get_language_count(ty(t), n.id);
}
template<class T> static std::vector<T> sorted(std::vector<T> v) { std::sort(v.begin(), v.end()); return v; }

// What one lookup gives: the answer, or that it was reported as missing
#define LOOKUP(found, expr) bool found = true; try { expr; } catch(const pe_exception&) { found = false; }
static uint32_t langs[] = { 0, 0x409 };
static void compare(mc::Ctx& c, Model& m, const resource_directory& root, const Key* ts, const Key* ns, const char* when)
{
    const V v(root);
    std::vector<uint32_t> want_types;
    for(size_t i = 0; i < m.size(); ++i) if(!m[i].k.named) want_types.push_back(m[i].k.id);
    MC_REQUIRE(c, sorted(v.list_resource_types()) == sorted(want_types), "types", "%s: the list of types differs", when);
    for(int i = 0; i < 2; ++i)
    {
        const Key& t = ts[i];
        Type* mt = find(m, t);
        MC_REQUIRE(c, (t.named ? v.resource_exists(t.name) : v.resource_exists(ty(t))) == (mt != 0), "exists", "%s: type %d", when, i);
        std::vector<uint32_t> want_ids; std::vector<std::wstring> want_names;
        for(size_t k = 0; mt && k < mt->names.size(); ++k) { if(mt->names[k].k.named) want_names.push_back(mt->names[k].k.name); else want_ids.push_back(mt->names[k].k.id); }
        std::vector<uint32_t> ids; std::vector<std::wstring> names; uint32_t count = 0;
        LOOKUP(f1, ids = t.named ? v.list_resource_ids(t.name) : v.list_resource_ids(ty(t)))
        LOOKUP(f2, names = t.named ? v.list_resource_names(t.name) : v.list_resource_names(ty(t)))
        LOOKUP(f3, count = t.named ? v.get_resource_count(t.name) : v.get_resource_count(ty(t)))
        MC_REQUIRE(c, f1 == (mt != 0) && f2 == f1 && f3 == f1, "missing-type", "%s: listing type %d: %d %d %d", when, i, f1, f2, f3);
        MC_REQUIRE(c, sorted(ids) == sorted(want_ids) && sorted(names) == sorted(want_names) && count == ids.size() + names.size(), "names", "%s: resources of type %d differ", when, i);
        for(int j = 0; j < 2; ++j)
        {
            const Key& n = ns[j];
            Name* mn = find(m, t, n);
            std::vector<uint32_t> want, got; uint32_t cnt = 0;
            for(size_t k = 0; mn && k < mn->langs.size(); ++k) want.push_back(mn->langs[k].lang);
            LOOKUP(g1, got = langs_of(v, t, n))
            LOOKUP(g2, cnt = lang_count(v, t, n))
            MC_REQUIRE(c, g1 == (mn != 0) && g2 == g1, "missing-name", "%s: listing languages of %d %d: %d %d", when, i, j, g1, g2);
            MC_REQUIRE(c, sorted(got) == sorted(want) && cnt == want.size(), "languages", "%s: languages of %d %d differ", when, i, j);
            for(int l = 0; l < 3; ++l)
            {
                const uint32_t lang = l < 2 ? langs[l] : 0x777;
                Lang* ml = find(m, t, n, lang);
                Bytes b; uint32_t cp = 0;
                LOOKUP(h, const resource_data_info d = data_by_lang(v, t, n, lang); b = d.get_data(); cp = d.get_codepage())
                MC_REQUIRE(c, h == (ml != 0), "missing", "%s: resource %d %d %x is %s", when, i, j, lang, h ? "found" : "missing");
                MC_REQUIRE(c, !ml || (b == ml->d.b && cp == ml->d.cp), "data", "%s: resource %d %d %x has other data", when, i, j, lang);
                // by index: in the order of the listing
                LOOKUP(x, const resource_data_info d = data_by_index(v, t, n, l); b = d.get_data(); cp = d.get_codepage())
                MC_REQUIRE(c, x == (static_cast<size_t>(l) < want.size()), "missing-index", "%s: resource %d %d at index %d is %s", when, i, j, l, x ? "found" : "missing");
                if(x) { ml = find(m, t, n, got[l]); MC_REQUIRE(c, b == ml->d.b && cp == ml->d.cp, "index", "%s: resource %d %d at index %d has other data", when, i, j, l); }
            }
            // indices past the last language, also where they differ from a good one only above the low bits
            static const uint32_t far[] = { 0xff, 0x100, 0xffff, 0x10000, 0x10001, 0x7fffffff, 0x80000000u, 0x80000001u, 0xffff0000u, 0xffffffffu };
            for(size_t l = 0; l < sizeof(far) / sizeof(far[0]) && mn && want.size() < 0xff; ++l)
            {
                LOOKUP(x, data_by_index(v, t, n, far[l]))
                MC_REQUIRE(c, !x, "missing-index", "%s: resource %d %d at index %u is found", when, i, j, far[l]);
            }
        }
    }
    // nothing else is there
    Node a = res::from_library(c, root, false), w = tree(m);
    res::sort(a); res::sort(w);
    const Bytes d = res::diff(a, w);
    MC_REQUIRE(c, d.empty(), "tree", "%s: %s", when, d.c_str());
}
static resource_directory through_image(const resource_directory& d, bool pe64)
{
    pe_base pe(fresh(pe64));
    section& s = add_sec(pe, "rsrc", Bytes(1, 'r'));
    resource_directory copy(d);
    rebuild_resources(pe, copy, s);
    return get_resources(open_pe(write_pe(pe), false, false));
}
static uint64_t state_of(const Model& m) { Node n = tree(m); res::sort(n); return res::hash_of(n); }
static const int alphabets = 8;
static void alphabet(int a, Key* t, Key* n)
{
    langs[0] = 0; langs[1] = 0x409;
    switch(a)
    {
    case 0: t[0] = kid(10); t[1] = kname(L"A"); n[0] = kid(1); n[1] = kname(L"A"); break;
    case 1: t[0] = kid(0); t[1] = kname(L""); n[0] = kid(0); n[1] = kname(L""); break;
    case 2: t[0] = kname(L"A"); t[1] = kname(L"a"); n[0] = kname(L"#1"); n[1] = kid(1); break;
    // keys that are the same in their low 8, 16 or 24 bits
    case 5: t[0] = kid(10); t[1] = kid(0x1000a); n[0] = kid(1); n[1] = kid(0x10001); langs[0] = 0x409; langs[1] = 0x10409; break;
    case 6: t[0] = kid(0x7fffffff); t[1] = kid(0xffff); n[0] = kid(0x7fffffff); n[1] = kid(0xff); langs[0] = 0xff; langs[1] = 0x7fffffff; break;
    case 7: t[0] = kname(L"N"); t[1] = kname(std::wstring(1, L'\x14e')); n[0] = kname(std::wstring(300, L'n')); n[1] = kname(std::wstring(300 + 256, L'n')); langs[0] = 0x7f000000; langs[1] = 0; break;
    case 3: t[0] = kid(10); t[1] = kid(65535); n[0] = kid(7); n[1] = kid(65535); break;
    default: t[0] = kid(3); t[1] = kname(L"3"); n[0] = kname(std::wstring(L"a\0b", 3)); n[1] = kname(L"a"); break;
    }
}
static bool operation(mc::Ctx& c, Model& m, pe_resource_manager& r, const Key* ts, const Key* ns, int step)
{
    const int op = c.choose(22, "operation");
    bool got = true, want = true;
    c.step();
    if(op < 8)
    {
        const Data d = { step == 1 ? Bytes() : Bytes(step + 1, static_cast<char>('a' + step)), static_cast<uint32_t>(1200 + step) };
        c.desc("add %d%d%d", op >> 2, op >> 1 & 1, op & 1);
        do_add(r, ts[op >> 2], ns[op >> 1 & 1], langs[op & 1], d.b, d.cp, 100 + step);
        add(m, ts[op >> 2], ns[op >> 1 & 1], langs[op & 1], d, 100 + step);
    }
    else if(op < 16)
    {
        const int k = op - 8;
        c.desc("remove %d%d%d", k >> 2, k >> 1 & 1, k & 1);
        got = do_remove(r, ts[k >> 2], ns[k >> 1 & 1], langs[k & 1]); want = remove(m, ts[k >> 2], ns[k >> 1 & 1], langs[k & 1]);
    }
    else if(op < 20)
    {
        const int k = op - 16;
        c.desc("remove %d%d", k >> 1, k & 1);
        got = do_remove(r, ts[k >> 1], ns[k & 1]); want = remove(m, ts[k >> 1], ns[k & 1]);
    }
    else { c.desc("remove %d", op - 20); got = do_remove(r, ts[op - 20]); want = remove(m, ts[op - 20]); }
    MC_REQUIRE(c, got == want, "removed", "removal reported %d", got);
    return want;
}
static void run(mc::Ctx& c, int alpha, int depth, bool image)
{
    Key t[2], n[2];
    alphabet(alpha, t, n);
    Model m;
    resource_directory root;
    pe_resource_manager r(root);
    for(int i = 0; i < depth; ++i)
    {
        operation(c, m, r, t, n, i);
        c.state(state_of(m));
    }
    compare(c, m, r.get_root_directory(), t, n, "after editing");     // every shorter history is an execution of its own
    if(image && !m.empty())
    {
        resource_directory again = through_image(root, depth % 2);
        compare(c, m, again, t, n, "after rereading");
        // editing goes on
        pe_resource_manager r2(again);
        const Data d = { "zz", 3 };
        do_add(r2, t[1], n[1], 0x409, d.b, d.cp, 5); add(m, t[1], n[1], 0x409, d, 5);
        compare(c, m, again, t, n, "after editing what was reread");
        MC_REQUIRE(c, do_remove(r2, t[0]) == remove(m, t[0]), "removed", "removal after rereading");
        if(!m.empty()) again = through_image(again, false);
        compare(c, m, again, t, n, "after rereading again");
    }
    c.outcome(state_of(m));
    c.trace();
}
static void histories(mc::Ctx& c) { run(c, 0, mc::tier_pick(4, 5), false); }
static void keys(mc::Ctx& c) { const int a = c.choose(alphabets, "keys"); run(c, a, 1 + c.choose(mc::tier_pick(3, 4), "length"), false); }
static void images(mc::Ctx& c) { const int a = c.choose(alphabets, "keys"); run(c, a, mc::tier_pick(2, 3), true); }

// Everything present; every sequence of removals
static void full(mc::Ctx& c)
{
    Key t[2], n[2];
    alphabet(c.choose(alphabets, "keys"), t, n);
    Model m;
    resource_directory root;
    pe_resource_manager r(root);
    for(int i = 0; i < 8; ++i) { const Data d = { Bytes(1, static_cast<char>('0' + i)), static_cast<uint32_t>(i) }; add(m, t[i >> 2], n[i >> 1 & 1], langs[i & 1], d, i); do_add(r, t[i >> 2], n[i >> 1 & 1], langs[i & 1], d.b, d.cp, i); }
    compare(c, m, root, t, n, "filled");
    const int k = 1 + c.choose(mc::tier_pick(2, 4), "length");
    for(int i = 0; i < k; ++i) { operation(c, m, r, t, n, i); c.state(state_of(m)); }
    compare(c, m, root, t, n, "after editing");
    c.outcome(state_of(m));
    c.trace();
}
// Many types, names or languages, added in several orders, partly replaced and removed
static Key nth(int i, int sort) { return sort == 2 || (sort == 1 && i % 2) ? kname(L"N" + std::to_wstring(i * 7 % 101)) : kid(1 + i * 5 % 97); }
static void many(mc::Ctx& c)
{
    static const int more[] = { 50, 64, 65, 90 };
    const int w = c.choose(3, "many types / names / languages"), k = c.choose(mc::tier_pick(24, 40) + 4, "number"), sort = c.choose(3, "identifiers / both / names"), order = c.choose(3, "order"), what = c.choose(6, "then");
    const int n = k < mc::tier_pick(24, 40) ? k : more[k - mc::tier_pick(24, 40)];
    langs[0] = 0; langs[1] = 0x409;
    Model m;
    resource_directory root;
    pe_resource_manager r(root);
    std::vector<int> is;
    for(int i = 0; i < n; ++i) is.push_back(order == 0 ? i : order == 1 ? n - 1 - i : i % 2 ? i / 2 : n - 1 - i / 2);
    struct At { static Key t(int w, int i, int s) { return w == 0 ? nth(i, s) : kid(10); } static Key n(int w, int i, int s) { return w == 1 ? nth(i, s) : kname(L"x"); } static uint32_t l(int w, int i) { return w == 2 ? static_cast<uint32_t>(i * 0x33 % 0x1000) : 0x409; } };
    for(int q = 0; q < n; ++q) { const int i = is[q]; const Data d = { Bytes(1 + i % 5, static_cast<char>('0' + i)), static_cast<uint32_t>(i) }; const Key t = At::t(w, i, sort), nm = At::n(w, i, sort); do_add(r, t, nm, At::l(w, i), d.b, d.cp, i); add(m, t, nm, At::l(w, i), d, i); }
    for(int q = 0; q < n; ++q)
    {
        const int i = is[q]; const Key t = At::t(w, i, sort), nm = At::n(w, i, sort); const uint32_t l = At::l(w, i);
        if(what == 1 || what == 2) { if((i + what) % 2) MC_REQUIRE(c, do_remove(r, t, nm, l) == remove(m, t, nm, l), "removed", "removal of %d", i); }
        else if(what == 3) { if(i % 3) { const Data d = { "again", 7 }; do_add(r, t, nm, l, d.b, d.cp, 1); add(m, t, nm, l, d, 1); } }
        else if(what == 4) { if(i % 4 == 1) { if(w == 0) MC_REQUIRE(c, do_remove(r, t) == remove(m, t), "removed", "removal of %d", i); else MC_REQUIRE(c, do_remove(r, t, nm) == remove(m, t, nm), "removed", "removal of %d", i); } }
    }
    for(int pass = 0; pass < 2; ++pass)
    {
        for(int i = 0; i < n + 1; i += 2)
        {
            const Key ts[2] = { At::t(w, i, sort), At::t(w, i + 1, sort) }, ns[2] = { At::n(w, i, sort), At::n(w, i + 1, sort) };
            compare(c, m, root, ts, ns, pass ? "after rereading" : "after editing");
        }
        const V v(root);
        for(size_t i = 0; w == 2 && !m.empty() && i < m[0].names.size(); ++i)
            for(size_t j = 0; j < m[0].names[i].langs.size(); ++j) MC_REQUIRE(c, data_by_lang(v, m[0].k, m[0].names[i].k, m[0].names[i].langs[j].lang).get_data() == m[0].names[i].langs[j].d.b, "data", "language %zu has other data", j);
        if(what != 5 || m.empty()) break;
        root = through_image(root, n % 2);
    }
    c.outcome(state_of(m));
    c.trace();
}
// Data and names taken from the tree that is edited
static void aliases(mc::Ctx& c)
{
    Key t[2], n[2];
    alphabet(0, t, n);
    Model m;
    resource_directory root;
    pe_resource_manager r(root);
    const int have = c.choose(256, "present");
    for(int i = 0; i < 8; ++i) if(have >> i & 1) { const Data d = { Bytes(i * 9 + 1, static_cast<char>('0' + i)), static_cast<uint32_t>(i) }; add(m, t[i >> 2], n[i >> 1 & 1], langs[i & 1], d, i); do_add(r, t[i >> 2], n[i >> 1 & 1], langs[i & 1], d.b, d.cp, i); }
    if(!have) { c.outcome(0); return; }
    const int from = c.choose(8, "from"), to = c.choose(8, "to");
    if(!(have >> from & 1)) { c.outcome(1); return; }
    const Key &tf = t[from >> 2], &nf = n[from >> 1 & 1];
    const resource_directory& td = (tf.named ? root.entry_by_name(tf.name) : root.entry_by_id(tf.id)).get_resource_directory();
    const resource_directory_entry& ne = nf.named ? td.entry_by_name(nf.name) : td.entry_by_id(nf.id);
    const resource_directory& nd = ne.get_resource_directory();
    const Data d = find(m, tf, nf, langs[from & 1])->d;
    c.step();
    do_add(r, t[to >> 2], n[to >> 1 & 1], langs[to & 1], nd.entry_by_id(langs[from & 1]).get_data_entry().get_data(), 9, 50);
    Data e = d; e.cp = 9;
    add(m, t[to >> 2], n[to >> 1 & 1], langs[to & 1], e, 50);
    compare(c, m, root, t, n, "after adding what is there");
    c.outcome(state_of(m));
}
// Trees no editing makes: data above the language level, directories below it, languages with names, keys that appear twice
static void odd(mc::Ctx& c)
{
    Node root, type = c.flip("named type") ? res::key(L"A") : res::key(10), name = c.flip("named resource") ? res::key(L"A") : res::key(1), lang = c.flip("named language") ? res::key(L"L") : res::key(0);
    const int level = c.choose(4, "data at level");
    const bool twice = c.flip("twice");
    Node leaf = level == 0 ? type : level == 1 ? name : level == 2 ? lang : res::key(3);
    leaf.leaf = true; leaf.data = "data"; leaf.cp = 4;
    if(level == 0) root.kids.push_back(leaf);
    else if(level == 1) { type.kids.push_back(leaf); if(twice) type.kids.push_back(leaf); root.kids.push_back(type); }
    else if(level == 2) { name.kids.push_back(leaf); if(twice) name.kids.push_back(leaf); type.kids.push_back(name); root.kids.push_back(type); }
    else { lang.kids.push_back(leaf); name.kids.push_back(lang); type.kids.push_back(name); if(twice) type.kids.push_back(name); root.kids.push_back(type); }
    if(twice && level != 3) root.kids.push_back(root.kids[0]);
    resource_directory d = res::to_library(root);
    pe_resource_manager r(d);
    Key t[2], n[2];
    alphabet(0, t, n);
    const int k = c.choose(22, "operation");
    c.step();
    bool threw = false, did = false;
    try
    {
        if(k < 8) { do_add(r, t[k >> 2], n[k >> 1 & 1], langs[k & 1], "new", 1, 1); did = true; }
        else if(k < 16) did = do_remove(r, t[k >> 2 & 1], n[k >> 1 & 1], langs[k & 1]);
        else if(k < 20) did = do_remove(r, t[k >> 1 & 1], n[k & 1]);
        else did = do_remove(r, t[k & 1]);
    }
    catch(const pe_exception&) { threw = true; }
    const Node now = res::from_library(c, d, false);
    if(threw || !did) { const Bytes x = res::diff(now, root); MC_REQUIRE(c, x.empty(), "refused-changed", "nothing was done but %s", x.c_str()); }
    if(k < 8 && did && !(twice && level == 2)) { const resource_data_info i = data_by_lang(r, t[k >> 2], n[k >> 1 & 1], langs[k & 1]); MC_REQUIRE(c, i.get_data() == "new" && i.get_codepage() == 1, "data", "the added resource is not found"); }
    if(did && k >= 8) MC_REQUIRE(c, res::hash_of(now) != res::hash_of(root), "removed", "nothing was removed");
    // every lookup answers or reports
    const V v(d);
    uint64_t h = res::hash_of(now);
    for(int i = 0; i < 8; ++i)
    {
        const Key &a = t[i >> 2], &b = n[i >> 1 & 1];
        LOOKUP(x1, data_by_lang(v, a, b, langs[i & 1]))
        LOOKUP(x2, data_by_index(v, a, b, i & 1))
        LOOKUP(x3, langs_of(v, a, b))
        LOOKUP(x4, lang_count(v, a, b))
        LOOKUP(x5, a.named ? v.list_resource_ids(a.name) : v.list_resource_ids(ty(a)))
        h = mc::mix(h, x1 + 2 * x2 + 4 * x3 + 8 * x4 + 16 * x5);
    }
    c.outcome(h);
}
// Languages that are named as well as numbered ones: only the numbered are listed, counted, found and removed
static void named(mc::Ctx& c)
{
    Key t[2], n[2];
    alphabet(c.choose(alphabets, "keys"), t, n);
    const Key &tk = t[c.choose(2, "type")], &nk = n[c.choose(2, "name")];
    static const wchar_t* const words[] = { L"L", L"", L"#1033" };
    Node root, type = node(tk), name = node(nk);
    const int have = c.choose(32, "languages"), order = c.choose(3, "order");
    std::vector<uint32_t> want;
    for(int q = 0; q < 5; ++q)
    {
        const int i = order == 0 ? q : order == 1 ? 4 - q : q * 2 % 5;
        if(!(have >> i & 1)) continue;
        Node l = i < 2 ? res::key(langs[i]) : res::key(std::wstring(words[i - 2]));
        l.leaf = true; l.data = Bytes(i + 1, static_cast<char>('a' + i)); l.cp = i;
        if(i < 2) want.push_back(langs[i]);
        name.kids.push_back(l);
    }
    type.kids.push_back(name); root.kids.push_back(type);
    resource_directory d = res::to_library(root);
    pe_resource_manager r(d);
    for(int k = 0; k < 3; ++k)
    {
        c.step();
        MC_REQUIRE(c, langs_of(r, tk, nk) == want, "languages", "the listed languages differ");
        MC_REQUIRE(c, lang_count(r, tk, nk) == want.size(), "languages", "%u languages instead of %zu", lang_count(r, tk, nk), want.size());
        for(int i = 0; i < 2; ++i)
        {
            const bool is = std::find(want.begin(), want.end(), langs[i]) != want.end();
            Bytes b;
            LOOKUP(h, b = data_by_lang(r, tk, nk, langs[i]).get_data())
            MC_REQUIRE(c, h == is && (!h || b == Bytes(i + 1, static_cast<char>('a' + i))), "missing", "language %x is %s", langs[i], h ? "found or other" : "missing");
        }
        const size_t all = static_cast<size_t>(__builtin_popcount(have >> 2)) + want.size();
        LOOKUP(x, data_by_index(r, tk, nk, static_cast<uint32_t>(all)))
        MC_REQUIRE(c, !x, "missing-index", "index %zu is found", all);
        if(k == 2) break;
        if(all == (std::find(want.begin(), want.end(), langs[k]) != want.end() ? 1u : 0u)) break;      // nothing would be left
        const std::vector<uint32_t>::iterator at = std::find(want.begin(), want.end(), langs[k]);
        MC_REQUIRE(c, do_remove(r, tk, nk, langs[k]) == (at != want.end()), "removed", "removal of language %x", langs[k]);
        if(at != want.end()) want.erase(at);
    }
    c.outcome(res::hash_of(root));
}
namespace mc {
const Part parts[] = {
    { "histories", histories, 0, 0, "every sequence of additions and removals over two types, two names and two languages" },
    { "keys", keys, 0, 0, "the same over eight sets of keys: numbers, names, number 0 and the empty name, names that look like numbers, differ in case or share a beginning, numbers, languages and long names that are equal in their low bits" },
    { "images", images, 0, 0, "operations, written into an image, reread, edited and reread again" },
    { "many", many, 0, 0, "1 to 23 (39), 50, 64, 65 and 90 types, names or languages in three orders, then partly replaced or removed, or written and reread" },
    { "full", full, 0, 0, "every sequence of operations on a tree that holds every key" },
    { "aliases", aliases, 0, 0, "adding data that is owned by the tree itself, over every set of present keys" },
    { "odd", odd, 0, 0, "one operation on trees with data at every level, named languages and repeated keys" },
    { "named", named, 0, 0, "every set of two numbered and three named languages of one resource in three orders: listed, counted, found and removed" },
};
const int part_count = sizeof(parts) / sizeof(parts[0]);
}
