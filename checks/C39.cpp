// C39: description objects hold what is put into them.
#include "util.h"
#include <functional>
#include <type_traits>
using namespace u;
const char* const mc::check_id = "C39";

// What an object should hold: numbers, texts and lists by name
struct Model
{
    std::map<std::string, uint64_t> n;
    std::map<std::string, Bytes> s;
    std::map<std::string, std::vector<Bytes> > l;
};
static Bytes enc(const Bytes& s) { return s; }
static Bytes enc(const std::wstring& s) { Bytes r; for(size_t i = 0; i < s.size(); ++i) ref::app32(r, static_cast<uint32_t>(s[i])); return r; }
static Bytes num(uint64_t v) { Bytes r; ref::app32(r, static_cast<uint32_t>(v)); ref::app32(r, static_cast<uint32_t>(v >> 32)); return r; }
template<class V> static typename std::enable_if<std::is_integral<V>::value || std::is_enum<V>::value, Bytes>::type enc(V v) { return num(static_cast<uint64_t>(v)); }
static Bytes join(const std::vector<Bytes>& l) { Bytes r; for(size_t i = 0; i < l.size(); ++i) { ref::app32(r, static_cast<uint32_t>(l[i].size())); r += l[i]; } return r; }

// A kind of objects: ways to create one, things to do with it, questions to ask
template<class T> struct Kind
{
    struct Start { std::string name; std::function<T()> make; Model m; };
    struct Op { std::string name; std::function<void(T&)> run; std::function<void(Model&)> eff; };
    struct Ask { std::string name; std::function<Bytes(const T&)> get; std::function<Bytes(const Model&)> want; };
    std::vector<Start> starts; std::vector<Op> ops; std::vector<Ask> asks;
    void start(const std::string& n, std::function<T()> f, const Model& m) { Start s = { n, f, m }; starts.push_back(s); }
    void op(const std::string& n, std::function<void(T&)> f, std::function<void(Model&)> e) { Op o = { n, f, e }; ops.push_back(o); }
    void ask(const std::string& n, std::function<Bytes(const T&)> f, std::function<Bytes(const Model&)> w) { Ask a = { n, f, w }; asks.push_back(a); }
    template<class V> void get(const std::string& n, V (T::*g)() const) { ask(n, [g](const T& t) { return enc((t.*g)()); }, [n](const Model& m) { const auto i = m.n.find(n); return num(i == m.n.end() ? 0 : i->second); }); }
    void gets(const std::string& n, const std::string& (T::*g)() const) { ask(n, [g](const T& t) { return (t.*g)(); }, [n](const Model& m) { const auto i = m.s.find(n); return i == m.s.end() ? Bytes() : i->second; }); }
    // A number that can be set and asked for
    template<class V, class S> void value(const std::string& n, V (T::*g)() const, void (T::*f)(S))
    {
        get(n, g);
        const uint64_t all = std::is_same<S, bool>::value ? 1 : (~0ULL >> (64 - 8 * sizeof(S)));
        const uint64_t vs[] = { 0, 1, all, (0x8123456789abcdefULL & all) | (all ^ all >> 1) };
        for(int k = 0; k < (all == 1 ? 2 : 4); ++k) { const uint64_t x = vs[k]; op(n + "=" + std::to_string(x), [f, x](T& t) { (t.*f)(static_cast<S>(x)); }, [n, x](Model& m) { m.n[n] = x; }); }
    }
    void text(const std::string& n, const std::string& (T::*g)() const, void (T::*f)(const std::string&), std::function<void(Model&)> more = [](Model&) {})
    {
        gets(n, g);
        const Bytes vs[] = { "a", "", Bytes("x\0y", 3), Bytes(300, 'z') };
        for(int k = 0; k < 4; ++k) { const Bytes x = vs[k]; op(n + "=text" + std::to_string(k), [f, x](T& t) { (t.*f)(x); }, [n, x, more](Model& m) { m.s[n] = x; more(m); }); }
    }
    void check(mc::Ctx& c, const T& t, const Model& m, const char* who) const
    {
        for(size_t i = 0; i < asks.size(); ++i)
        {
            const Bytes g = asks[i].get(t), w = asks[i].want(m);
            MC_REQUIRE(c, g == w, asks[i].name.c_str(), "%s: %s is %s, should be %s", who, asks[i].name.c_str(), mc::hex(g, 16).c_str(), mc::hex(w, 16).c_str());
        }
    }
    Bytes all(const T& t) const { std::vector<Bytes> l; for(size_t i = 0; i < asks.size(); ++i) l.push_back(asks[i].get(t)); return join(l); }
    // Every sequence of operations, as long as they are few enough
    void explore(mc::Ctx& c, const char* name) const
    {
        const int k = c.choose(static_cast<int>(starts.size()), "start");
        c.desc("%s %s:", name, starts[k].name.c_str());
        Model m = starts[k].m;
        T t = starts[k].make();
        check(c, t, m, "new object");
        int depth = 0;
        for(double n = 1; !ops.empty() && n * ops.size() <= mc::tier_pick(60000, 2000000) && depth < 6; ++depth) n *= static_cast<double>(ops.size());
        if(depth < 2 && !ops.empty()) depth = 2;
        for(int i = 0; i < depth; ++i)
        {
            const int o = c.choose(static_cast<int>(ops.size()), "operation");
            c.desc(" %s", ops[o].name.c_str());
            const T copy(t);
            const Model before = m;
            ops[o].run(t);
            ops[o].eff(m);
            c.step();
            check(c, t, m, "after the operation");
            check(c, copy, before, "copy made before the operation");
            T other = starts[0].make();
            other = t;
            check(c, other, m, "assigned object");
        }
        const uint64_t h = mc::mix(mc::hash(Bytes(name)), mc::hash(all(t)));
        c.state(h);
        c.outcome(h);
    }
};
static uint64_t at(const Model& m, const char* n) { const auto i = m.n.find(n); return i == m.n.end() ? 0 : i->second; }
static Bytes text_at(const Model& m, const char* n) { const auto i = m.s.find(n); return i == m.s.end() ? Bytes() : i->second; }
static std::vector<Bytes> list_at(const Model& m, const char* n) { const auto i = m.l.find(n); return i == m.l.end() ? std::vector<Bytes>() : i->second; }
#define V(K, T, n) K.value(#n, &T::get_##n, &T::set_##n)

static void sections(mc::Ctx& c)
{
    static const Kind<section>* k = 0;
    if(!k)
    {
        Kind<section>* q = new Kind<section>; k = q;
        q->start("new", [] { return section(); }, Model());
        V((*q), section, virtual_size); V((*q), section, virtual_address); V((*q), section, size_of_raw_data); V((*q), section, pointer_to_raw_data); V((*q), section, characteristics);
        struct F { const char* n; section& (section::*set)(bool); bool (section::*get)() const; uint32_t bit; };
        static const F fs[] = { { "readable", &section::readable, &section::readable, 0x40000000 }, { "writeable", &section::writeable, &section::writeable, 0x80000000u }, { "executable", &section::executable, &section::executable, 0x20000000 },
            { "shared", &section::shared, &section::shared, 0x10000000 }, { "discardable", &section::discardable, &section::discardable, 0x02000000 } };
        for(int i = 0; i < 5; ++i)
        {
            const F f = fs[i];
            for(int b = 0; b < 2; ++b) q->op(std::string(f.n) + (b ? "+" : "-"), [f, b](section& s) { if(&(s.*f.set)(b != 0) != &s) throw std::logic_error("another section returned"); }, [f, b](Model& m) { if(b) m.n["characteristics"] |= f.bit; else m.n["characteristics"] &= ~uint64_t(f.bit); });
            q->ask(f.n, [f](const section& s) { return enc((s.*f.get)()); }, [f](const Model& m) { return num((at(m, "characteristics") & f.bit) != 0); });
        }
        static const char* names[] = { "a", "", "12345678", "123456789abc", ".rs" };
        for(int i = 0; i < 5; ++i) { const Bytes n = names[i]; q->op("name=" + n, [n](section& s) { s.set_name(n); }, [n](Model& m) { m.s["name"] = n.substr(0, 8); }); }
        q->ask("name", [](const section& s) { return s.get_name(); }, [](const Model& m) { return text_at(m, "name"); });
        for(int i = 0; i < 3; ++i) { const Bytes d = i == 0 ? Bytes() : i == 1 ? Bytes("\0x", 2) : Bytes(0x1001, 'q'); q->op("data" + std::to_string(i), [d](section& s) { s.set_raw_data(d); }, [d](Model& m) { m.s["data"] = d; }); }
        q->ask("data", [](const section& s) { return s.get_raw_data(); }, [](const Model& m) { return text_at(m, "data"); });
        q->ask("empty", [](const section& s) { return enc(s.empty()); }, [](const Model& m) { return num(text_at(m, "data").empty()); });
        q->ask("raw-header", [](const section& s) { return Bytes(reinterpret_cast<const char*>(&s.get_raw_header()), 40); }, [](const Model& m) {
            ref::Sec x; x.name = text_at(m, "name"); x.vsize = at(m, "virtual_size"); x.va = at(m, "virtual_address"); x.rawsize = at(m, "size_of_raw_data"); x.rawptr = at(m, "pointer_to_raw_data"); x.chars = at(m, "characteristics");
            return ref::Spec::sechdr(x); });
        // where the result can be told in 32 bits
        q->ask("aligned-size", [](const section& s) { const uint32_t v = s.get_virtual_size() ? s.get_virtual_size() : s.get_size_of_raw_data(); return enc(v > 0xfffff000u ? 0 : s.get_aligned_virtual_size(0x1000)); }, [](const Model& m) { const uint64_t v = at(m, "virtual_size") ? at(m, "virtual_size") : at(m, "size_of_raw_data"); return num(v > 0xfffff000u ? 0 : ref::up(v, 0x1000)); });
        q->ask("aligned-raw-size", [](const section& s) { return enc(s.get_size_of_raw_data() > 0xfffffe00u ? 0 : s.get_aligned_raw_size(0x200)); }, [](const Model& m) { const uint64_t v = at(m, "size_of_raw_data"); return num(v > 0xfffffe00u ? 0 : ref::up(v, 0x200)); });
    }
    k->explore(c, "section");
}
static void imports(mc::Ctx& c)
{
    static const Kind<imported_function>* f = 0; static const Kind<import_library>* l = 0; static const Kind<import_rebuilder_settings>* s = 0;
    if(!f)
    {
        Kind<imported_function>* a = new Kind<imported_function>;
        a->start("new", [] { return imported_function(); }, Model());
        V((*a), imported_function, hint); V((*a), imported_function, ordinal); V((*a), imported_function, iat_va);
        a->text("name", &imported_function::get_name, &imported_function::set_name);
        a->ask("has-name", [](const imported_function& x) { return enc(x.has_name()); }, [](const Model& m) { return num(!text_at(m, "name").empty()); });
        Kind<import_library>* b = new Kind<import_library>;
        b->start("new", [] { return import_library(); }, Model());
        V((*b), import_library, rva_to_iat); V((*b), import_library, rva_to_original_iat); V((*b), import_library, timestamp);
        b->text("name", &import_library::get_name, &import_library::set_name);
        for(int i = 0; i < 2; ++i) b->op("add" + std::to_string(i), [i](import_library& x) { imported_function y; if(i) y.set_name("named"); else y.set_ordinal(7); y.set_hint(3); x.add_import(y); }, [i](Model& m) { m.l["f"].push_back(i ? "named" : "7"); });
        b->op("clear", [](import_library& x) { x.clear_imports(); }, [](Model& m) { m.l["f"].clear(); });
        b->ask("functions", [](const import_library& x) { std::vector<Bytes> r; for(size_t i = 0; i < x.get_imported_functions().size(); ++i) { const imported_function& y = x.get_imported_functions()[i]; r.push_back(y.has_name() ? y.get_name() : std::to_string(y.get_ordinal())); if(y.get_hint() != 3) r.back() += "?"; } return join(r); }, [](const Model& m) { return join(list_at(m, "f")); });
        Kind<import_rebuilder_settings>* d = new Kind<import_rebuilder_settings>;
        Model z; z.n["build_original_iat"] = z.n["save"] = z.n["auto_set"] = z.n["strip"] = 1;
        for(int i = 0; i < 5; ++i)
        {
            Model m = z;
            if(i) { m.n["auto_set"] = i & 1; m.n["zero_iat"] = (i - 1) / 2; }
            d->start(std::to_string(i), [i] { return i ? import_rebuilder_settings(i & 1, (i - 1) / 2) : import_rebuilder_settings(); }, m);
        }
        typedef import_rebuilder_settings S;
        d->value("offset", &S::get_offset_from_section_start, &S::set_offset_from_section_start);
        d->value<bool, bool>("build_original_iat", &S::build_original_iat, &S::build_original_iat);
        d->value<bool, bool>("fill", &S::fill_missing_original_iats, &S::fill_missing_original_iats);
        d->value<bool, bool>("auto_set", &S::auto_set_to_pe_headers, &S::auto_set_to_pe_headers);
        d->value<bool, bool>("zero_iat", &S::zero_directory_entry_iat, &S::zero_directory_entry_iat);
        d->value("strip", &S::auto_strip_last_section_enabled, &S::enable_auto_strip_last_section);
        d->get<bool>("save", &S::save_iat_and_original_iat_rvas);
        d->get<bool>("rewrite", &S::rewrite_iat_and_original_iat_contents);
        for(int i = 0; i < 5; ++i) d->op("save" + std::to_string(i), [i](S& x) { if(i == 4) x.save_iat_and_original_iat_rvas(true); else x.save_iat_and_original_iat_rvas(i & 1, i & 2); }, [i](Model& m) { m.n["save"] = i == 4 || (i & 1); m.n["rewrite"] = i == 3; });
        f = a; l = b; s = d;
    }
    const int w = c.choose(3, "kind");
    if(w == 0) f->explore(c, "imported function"); else if(w == 1) l->explore(c, "import library"); else s->explore(c, "import settings");
}
static void exports(mc::Ctx& c)
{
    static const Kind<exported_function>* f = 0; static const Kind<export_info>* n = 0;
    if(!f)
    {
        Kind<exported_function>* a = new Kind<exported_function>;
        a->start("new", [] { return exported_function(); }, Model());
        V((*a), exported_function, ordinal); V((*a), exported_function, rva); V((*a), exported_function, name_ordinal);
        a->text("name", &exported_function::get_name, &exported_function::set_name);
        a->text("forward", &exported_function::get_forwarded_name, &exported_function::set_forwarded_name);
        a->ask("has-name", [](const exported_function& x) { return enc(x.has_name()); }, [](const Model& m) { return num(!text_at(m, "name").empty()); });
        a->ask("forwarded", [](const exported_function& x) { return enc(x.is_forwarded()); }, [](const Model& m) { return num(!text_at(m, "forward").empty()); });
        Kind<export_info>* b = new Kind<export_info>;
        b->start("new", [] { return export_info(); }, Model());
        V((*b), export_info, characteristics); V((*b), export_info, timestamp); V((*b), export_info, major_version); V((*b), export_info, minor_version); V((*b), export_info, ordinal_base); V((*b), export_info, number_of_functions);
        V((*b), export_info, number_of_names); V((*b), export_info, rva_of_functions); V((*b), export_info, rva_of_names); V((*b), export_info, rva_of_name_ordinals);
        b->text("name", &export_info::get_name, &export_info::set_name);
        f = a; n = b;
    }
    if(c.flip("kind")) f->explore(c, "exported function"); else n->explore(c, "export information");
}
static void relocations(mc::Ctx& c)
{
    static const Kind<relocation_entry>* e = 0; static const Kind<relocation_table>* t = 0;
    if(!e)
    {
        Kind<relocation_entry>* a = new Kind<relocation_entry>;
        static const uint16_t items[] = { 0, 0x3000, 0xafff, 0xffff, 0x0001, 0x1800 };
        a->start("new", [] { return relocation_entry(); }, Model());
        for(int i = 0; i < 6; ++i)
        {
            const uint16_t x = items[i];
            Model m; m.n["rva"] = x & 0xfff; m.n["type"] = x >> 12;
            a->start("item", [x] { return relocation_entry(x); }, m);
            a->start("pair", [x] { return relocation_entry(static_cast<uint16_t>(x & 0xfff), static_cast<uint16_t>(x >> 12)); }, m);
            a->op("item" + std::to_string(x), [x](relocation_entry& r) { r.set_item(x); }, [x](Model& y) { y.n["rva"] = x & 0xfff; y.n["type"] = x >> 12; });
        }
        static const uint16_t rvas[] = { 0, 1, 0x800, 0xfff }, types[] = { 0, 1, 3, 8, 10, 15 };
        for(int i = 0; i < 4; ++i) { const uint16_t x = rvas[i]; a->op("rva" + std::to_string(x), [x](relocation_entry& r) { r.set_rva(x); }, [x](Model& y) { y.n["rva"] = x; }); }
        for(int i = 0; i < 6; ++i) { const uint16_t x = types[i]; a->op("type" + std::to_string(x), [x](relocation_entry& r) { r.set_type(x); }, [x](Model& y) { y.n["type"] = x; }); }
        a->get("rva", &relocation_entry::get_rva); a->get("type", &relocation_entry::get_type);
        a->ask("item", [](const relocation_entry& r) { return enc(r.get_item()); }, [](const Model& m) { return num(at(m, "rva") | at(m, "type") << 12); });
        Kind<relocation_table>* b = new Kind<relocation_table>;
        b->start("new", [] { return relocation_table(); }, Model());
        { Model m; m.n["rva"] = 0xfffff000u; b->start("rva", [] { return relocation_table(0xfffff000u); }, m); }
        V((*b), relocation_table, rva);
        for(int i = 0; i < 3; ++i) b->op("add" + std::to_string(i), [i](relocation_table& x) { const relocation_entry y(static_cast<uint16_t>(items[i + 1])); if(i == 2) x.get_relocations().push_back(y); else x.add_relocation(y); }, [i](Model& m) { m.l["r"].push_back(num(items[i + 1])); });
        b->op("clear", [](relocation_table& x) { x.get_relocations().clear(); }, [](Model& m) { m.l["r"].clear(); });
        b->ask("entries", [](const relocation_table& x) { std::vector<Bytes> r; for(size_t i = 0; i < x.get_relocations().size(); ++i) r.push_back(num(x.get_relocations()[i].get_item())); return join(r); }, [](const Model& m) { return join(list_at(m, "r")); });
        e = a; t = b;
    }
    if(c.flip("kind")) e->explore(c, "relocation"); else t->explore(c, "relocation table");
}
static Bytes words(const std::vector<uint32_t>& v) { std::vector<Bytes> r; for(size_t i = 0; i < v.size(); ++i) r.push_back(num(v[i])); return join(r); }
static void tls(mc::Ctx& c)
{
    static const Kind<tls_info>* k = 0;
    if(!k)
    {
        Kind<tls_info>* a = new Kind<tls_info>;
        a->start("new", [] { return tls_info(); }, Model());
        V((*a), tls_info, raw_data_start_rva); V((*a), tls_info, raw_data_end_rva); V((*a), tls_info, index_rva); V((*a), tls_info, callbacks_rva); V((*a), tls_info, size_of_zero_fill); V((*a), tls_info, characteristics);
        a->text("data", &tls_info::get_raw_data, &tls_info::set_raw_data);
        a->op("recalculate", [](tls_info& x) { x.recalc_raw_data_end_rva(); }, [](Model& m) { m.n["raw_data_end_rva"] = static_cast<uint32_t>(at(m, "raw_data_start_rva") + text_at(m, "data").size()); });
        for(uint32_t i = 0; i < 3; ++i) a->op("add" + std::to_string(i), [i](tls_info& x) { if(i == 2) x.get_tls_callbacks().push_back(i); else x.add_tls_callback(i); }, [i](Model& m) { m.l["c"].push_back(num(i)); });
        a->op("clear", [](tls_info& x) { x.clear_tls_callbacks(); }, [](Model& m) { m.l["c"].clear(); });
        a->ask("callbacks", [](const tls_info& x) { return words(x.get_tls_callbacks()); }, [](const Model& m) { return join(list_at(m, "c")); });
        k = a;
    }
    k->explore(c, "TLS");
}
template<class H> static void config_from(Kind<image_config_info>& k, const char* name)
{
    // every field of the structure has its own value
    Model m;
    H h; memset(&h, 0, sizeof(h));
    h.TimeDateStamp = 0x81000001; h.MajorVersion = 0x8102; h.MinorVersion = 0x8103; h.GlobalFlagsClear = 0x81000004; h.GlobalFlagsSet = 0x81000005; h.CriticalSectionDefaultTimeout = 0x81000006;
    h.DeCommitFreeBlockThreshold = 0x81000007; h.DeCommitTotalFreeThreshold = 0x81000008; h.LockPrefixTable = 0x81000009; h.MaximumAllocationSize = 0x8100000a; h.VirtualMemoryThreshold = 0x8100000b; h.ProcessAffinityMask = 0x8100000c;
    h.ProcessHeapFlags = 0x8100000d; h.CSDVersion = 0x810e; h.EditList = 0x8100000f; h.SecurityCookie = 0x81000010; h.SEHandlerTable = 0x81000011; h.SEHandlerCount = 0x81000012;
    static const char* n[] = { "time_stamp", "major_version", "minor_version", "global_flags_clear", "global_flags_set", "critical_section_default_timeout", "decommit_free_block_threshold", "decommit_total_free_threshold", "lock_prefix_table_va",
        "max_allocation_size", "virtual_memory_threshold", "process_affinity_mask", "process_heap_flags", "service_pack_version", "edit_list_va", "security_cookie_va", "se_handler_table_va", "count" };
    for(unsigned i = 0; i < 18; ++i) m.n[n[i]] = i == 1 || i == 2 || i == 13 ? 0x8101 + i : 0x81000001u + i;
    k.start(name, [h] { return image_config_info(h); }, m);
}
static void config(mc::Ctx& c)
{
    static const Kind<image_config_info>* k = 0;
    if(!k)
    {
        Kind<image_config_info>* a = new Kind<image_config_info>;
        typedef image_config_info I;
        a->start("new", [] { return I(); }, Model());
        config_from<pe_win::image_load_config_directory32>(*a, "32-bit structure");
        config_from<pe_win::image_load_config_directory64>(*a, "64-bit structure");
        V((*a), I, time_stamp); V((*a), I, major_version); V((*a), I, minor_version); V((*a), I, global_flags_clear); V((*a), I, global_flags_set); V((*a), I, critical_section_default_timeout); V((*a), I, decommit_free_block_threshold);
        V((*a), I, decommit_total_free_threshold); V((*a), I, lock_prefix_table_va); V((*a), I, max_allocation_size); V((*a), I, virtual_memory_threshold); V((*a), I, process_affinity_mask); V((*a), I, process_heap_flags);
        V((*a), I, service_pack_version); V((*a), I, edit_list_va); V((*a), I, security_cookie_va); V((*a), I, se_handler_table_va);
        a->get("count", &I::get_se_handler_count);
        for(uint32_t i = 0; i < 3; ++i)
        {
            a->op("handler" + std::to_string(i), [i](I& x) { if(i == 2) x.get_se_handler_rvas().push_back(i); else x.add_se_handler_rva(i); }, [i](Model& m) { m.l["h"].push_back(num(i)); });
            a->op("prefix" + std::to_string(i), [i](I& x) { if(i == 2) x.get_lock_prefix_rvas().push_back(i); else x.add_lock_prefix_rva(i); }, [i](Model& m) { m.l["p"].push_back(num(i)); });
        }
        a->op("clear handlers", [](I& x) { x.clear_se_handler_list(); }, [](Model& m) { m.l["h"].clear(); });
        a->op("clear prefixes", [](I& x) { x.clear_lock_prefix_list(); }, [](Model& m) { m.l["p"].clear(); });
        a->ask("handlers", [](const I& x) { return words(x.get_se_handler_rvas()); }, [](const Model& m) { return join(list_at(m, "h")); });
        a->ask("prefixes", [](const I& x) { return words(x.get_lock_prefix_rvas()); }, [](const Model& m) { return join(list_at(m, "p")); });
        k = a;
    }
    k->explore(c, "load configuration");
}
static void bound(mc::Ctx& c)
{
    static const Kind<bound_import_ref>* r = 0; static const Kind<bound_import>* b = 0; static const Kind<image_directory>* d = 0; static const Kind<rich_data>* h = 0;
    if(!r)
    {
        Kind<bound_import_ref>* a = new Kind<bound_import_ref>;
        Model m; m.s["module"] = "name.dll"; m.n["timestamp"] = 0x81234567;
        a->start("new", [] { return bound_import_ref(); }, Model());
        a->start("given", [] { return bound_import_ref("name.dll", 0x81234567); }, m);
        V((*a), bound_import_ref, timestamp); a->text("module", &bound_import_ref::get_module_name, &bound_import_ref::set_module_name);
        Kind<bound_import>* e = new Kind<bound_import>;
        e->start("new", [] { return bound_import(); }, Model());
        e->start("given", [] { return bound_import("name.dll", 0x81234567); }, m);
        V((*e), bound_import, timestamp); e->text("module", &bound_import::get_module_name, &bound_import::set_module_name);
        for(uint32_t i = 0; i < 3; ++i) e->op("add" + std::to_string(i), [i](bound_import& x) { const bound_import_ref y("r", i); if(i == 2) x.get_module_ref_list().push_back(y); else x.add_module_ref(y); }, [i](Model& y) { y.l["r"].push_back(num(i)); });
        e->op("clear", [](bound_import& x) { x.clear_module_refs(); }, [](Model& y) { y.l["r"].clear(); });
        e->ask("references", [](const bound_import& x) { std::vector<uint32_t> v; for(size_t i = 0; i < x.get_module_ref_list().size(); ++i) v.push_back(x.get_module_ref_list()[i].get_timestamp() + (x.get_module_ref_list()[i].get_module_name() == "r" ? 0 : 100)); return words(v); }, [](const Model& y) { return join(list_at(y, "r")); });
        e->ask("reference count", [](const bound_import& x) { return enc(x.get_module_ref_count()); }, [](const Model& y) { return num(list_at(y, "r").size()); });
        Kind<image_directory>* f = new Kind<image_directory>;
        f->start("new", [] { return image_directory(); }, Model());
        { Model q; q.n["rva"] = 0x81000001; q.n["size"] = 0x82000002; f->start("given", [] { return image_directory(0x81000001, 0x82000002); }, q); }
        V((*f), image_directory, rva); V((*f), image_directory, size);
        Kind<rich_data>* g = new Kind<rich_data>;
        g->start("new", [] { return rich_data(); }, Model());
        V((*g), rich_data, number); V((*g), rich_data, version); V((*g), rich_data, times);
        r = a; b = e; d = f; h = g;
    }
    const int w = c.choose(4, "kind");
    if(w == 0) r->explore(c, "bound reference"); else if(w == 1) b->explore(c, "bound import"); else if(w == 2) d->explore(c, "directory"); else h->explore(c, "rich data");
}
static void debug(mc::Ctx& c)
{
    typedef coff_debug_info::coff_symbol S;
    static const Kind<S>* s = 0; static const Kind<coff_debug_info>* d = 0; static const Kind<debug_info>* e = 0;
    if(!s)
    {
        Kind<S>* a = new Kind<S>;
        a->start("new", [] { return S(); }, Model());
        V((*a), S, storage_class); V((*a), S, index); V((*a), S, section_number); V((*a), S, rva); V((*a), S, type);
        a->text("symbol", &S::get_symbol, &S::set_symbol_name, [](Model& m) { m.n["file"] = 0; });
        a->op("file", [](S& x) { x.set_file_name("file.c"); }, [](Model& m) { m.s["symbol"] = "file.c"; m.n["file"] = 1; });
        a->op("no file", [](S& x) { x.set_file_name(""); }, [](Model& m) { m.s["symbol"] = ""; m.n["file"] = 1; });
        a->get("file", &S::is_file);
        Kind<coff_debug_info>* b = new Kind<coff_debug_info>;
        b->start("new", [] { return coff_debug_info(); }, Model());
        static const char* n[] = { "number_of_symbols", "lva_to_first_symbol", "number_of_line_numbers", "lva_to_first_line_number", "first_code", "last_code", "first_data", "last_data" };
        static const pe_win::image_coff_symbols_header h = { 0x81000000, 0x81000001, 0x81000002, 0x81000003, 0x81000004, 0x81000005, 0x81000006, 0x81000007 };
        { Model m; for(unsigned i = 0; i < 8; ++i) m.n[n[i]] = 0x81000000u + i; b->start("given", [] { return coff_debug_info(&h); }, m); }
        b->get(n[0], &coff_debug_info::get_number_of_symbols); b->get(n[1], &coff_debug_info::get_lva_to_first_symbol); b->get(n[2], &coff_debug_info::get_number_of_line_numbers); b->get(n[3], &coff_debug_info::get_lva_to_first_line_number);
        b->get(n[4], &coff_debug_info::get_rva_to_first_byte_of_code); b->get(n[5], &coff_debug_info::get_rva_to_last_byte_of_code); b->get(n[6], &coff_debug_info::get_rva_to_first_byte_of_data); b->get(n[7], &coff_debug_info::get_rva_to_last_byte_of_data);
        for(uint32_t i = 0; i < 2; ++i) b->op("add" + std::to_string(i), [i](coff_debug_info& x) { S y; y.set_index(i); x.add_symbol(y); }, [i](Model& m) { m.l["s"].push_back(num(i)); });
        b->ask("symbols", [](const coff_debug_info& x) { std::vector<uint32_t> v; for(size_t i = 0; i < x.get_symbols().size(); ++i) v.push_back(x.get_symbols()[i].get_index()); return words(v); }, [](const Model& m) { return join(list_at(m, "s")); });
        Kind<debug_info>* f = new Kind<debug_info>;
        f->start("new", [] { return debug_info(); }, Model());
        static const pe_win::image_debug_directory dd = { 0x81000000, 0x81000001, 0x8102, 0x8103, 0x81000004, 0x81000005, 0x81000006, 0x81000007 };
        { Model m; m.n["characteristics"] = 0x81000000; m.n["time"] = 0x81000001; m.n["major"] = 0x8102; m.n["minor"] = 0x8103; m.n["type"] = 0x81000004; m.n["size"] = 0x81000005; m.n["rva"] = 0x81000006; m.n["pointer"] = 0x81000007; f->start("given", [] { return debug_info(dd); }, m); }
        f->get("characteristics", &debug_info::get_characteristics); f->get("time", &debug_info::get_time_stamp); f->get("major", &debug_info::get_major_version); f->get("minor", &debug_info::get_minor_version); f->get("type", &debug_info::get_type_raw);
        f->get("size", &debug_info::get_size_of_data); f->get("rva", &debug_info::get_rva_of_raw_data); f->get("pointer", &debug_info::get_pointer_to_raw_data);
        f->get("advanced", &debug_info::get_advanced_info_type);
        f->ask("type name", [](const debug_info& x) { return enc(x.get_type()); }, [](const Model&) { return num(debug_info::debug_type_unknown); });
        f->op("pdb7", [](debug_info& x) { x.set_advanced_debug_info(pdb_7_0_info()); }, [](Model& m) { m.n["advanced"] = debug_info::advanced_info_pdb_7_0; });
        f->op("pdb2", [](debug_info& x) { x.set_advanced_debug_info(pdb_2_0_info()); }, [](Model& m) { m.n["advanced"] = debug_info::advanced_info_pdb_2_0; });
        f->op("misc", [](debug_info& x) { x.set_advanced_debug_info(misc_debug_info()); }, [](Model& m) { m.n["advanced"] = debug_info::advanced_info_misc; });
        f->op("coff", [](debug_info& x) { x.set_advanced_debug_info(coff_debug_info(&h)); }, [](Model& m) { m.n["advanced"] = debug_info::advanced_info_coff; });
        f->op("other", [](debug_info& x) { x.set_advanced_info_type(debug_info::advanced_info_codeview_4_0); }, [](Model& m) { m.n["advanced"] = debug_info::advanced_info_codeview_4_0; });
        f->op("none", [](debug_info& x) { x.set_advanced_info_type(debug_info::advanced_info_none); }, [](Model& m) { m.n["advanced"] = debug_info::advanced_info_none; });
        f->ask("details", [](const debug_info& x) {
            Bytes r;
            try { x.get_advanced_debug_info<pdb_7_0_info>(); r += "7"; } catch(const pe_exception&) {}
            try { x.get_advanced_debug_info<pdb_2_0_info>(); r += "2"; } catch(const pe_exception&) {}
            try { x.get_advanced_debug_info<misc_debug_info>(); r += "m"; } catch(const pe_exception&) {}
            try { if(x.get_advanced_debug_info<coff_debug_info>().get_lva_to_first_line_number() == 0x81000003) r += "c"; } catch(const pe_exception&) {}
            return r; }, [](const Model& m) { switch(at(m, "advanced")) { case debug_info::advanced_info_pdb_7_0: return Bytes("7"); case debug_info::advanced_info_pdb_2_0: return Bytes("2"); case debug_info::advanced_info_misc: return Bytes("m"); case debug_info::advanced_info_coff: return Bytes("c"); default: return Bytes(); } });
        s = a; d = b; e = f;
    }
    const int w = c.choose(3, "kind");
    if(w == 0) s->explore(c, "symbol"); else if(w == 1) d->explore(c, "symbols"); else e->explore(c, "debug record");
}
static void resources(mc::Ctx& c)
{
    typedef resource_directory_entry E; typedef resource_directory D;
    static const Kind<resource_data_entry>* k = 0; static const Kind<E>* e = 0; static const Kind<D>* d = 0; static const Kind<resource_data_info>* n = 0;
    if(!k)
    {
        Model m; m.s["data"] = Bytes("d\0t", 3); m.n["codepage"] = 0x81234567;
        Kind<resource_data_entry>* a = new Kind<resource_data_entry>;
        a->start("new", [] { return resource_data_entry(); }, Model());
        a->start("given", [] { return resource_data_entry(Bytes("d\0t", 3), 0x81234567); }, m);
        V((*a), resource_data_entry, codepage); a->text("data", &resource_data_entry::get_data, &resource_data_entry::set_data);
        Kind<resource_data_info>* i = new Kind<resource_data_info>;
        i->start("given", [] { return resource_data_info(Bytes("d\0t", 3), 0x81234567); }, m);
        i->start("entry", [] { return resource_data_info(resource_data_entry(Bytes("d\0t", 3), 0x81234567)); }, m);
        i->gets("data", &resource_data_info::get_data); i->get("codepage", &resource_data_info::get_codepage);
        Kind<E>* b = new Kind<E>;
        b->start("new", [] { return E(); }, Model());
        static const uint32_t ids[] = { 0, 1, 0x7fffffff, 0xffffffff };
        for(int q = 0; q < 4; ++q) { const uint32_t x = ids[q]; b->op("id" + std::to_string(x), [x](E& y) { y.set_id(x); }, [x](Model& y) { y.n["id"] = x; y.n["named"] = 0; y.s["name"].clear(); }); }
        for(int q = 0; q < 4; ++q) { const std::wstring x = q == 0 ? L"A" : q == 1 ? L"" : q == 2 ? std::wstring(40, L'\x416') : std::wstring(L"a\0b", 3); b->op("name" + std::to_string(q), [x](E& y) { y.set_name(x); }, [x](Model& y) { y.n["id"] = 0; y.n["named"] = 1; y.s["name"] = enc(x); }); }
        for(uint32_t q = 0; q < 2; ++q) b->op("data" + std::to_string(q), [q](E& y) { y.add_data_entry(resource_data_entry(Bytes(1, static_cast<char>('a' + q)), q)); }, [q](Model& y) { y.n["has"] = 1; y.n["what"] = q; });
        for(uint32_t q = 0; q < 2; ++q) b->op("directory" + std::to_string(q), [q](E& y) { D x; x.set_timestamp(q + 5); y.add_resource_directory(x); }, [q](Model& y) { y.n["has"] = 2; y.n["what"] = q + 5; });
        b->get("id", &E::get_id); b->get("named", &E::is_named);
        b->ask("name", [](const E& y) { return enc(y.get_name()); }, [](const Model& y) { return text_at(y, "name"); });
        b->ask("content", [](const E& y) {
            uint64_t r = 0;
            try { const resource_data_entry& x = y.get_data_entry(); r = 1 + 0x100 * x.get_codepage(); if(x.get_data() != Bytes(1, static_cast<char>('a' + x.get_codepage())) || !y.includes_data()) r = 99; } catch(const pe_exception&) {}
            try { const D& x = y.get_resource_directory(); r += 2 + 0x100 * x.get_timestamp(); if(y.includes_data()) r = 98; } catch(const pe_exception&) {}
            return num(r); }, [](const Model& y) { return num(at(y, "has") + 0x100 * at(y, "what")); });
        Kind<D>* f = new Kind<D>;
        f->start("new", [] { return D(); }, Model());
        static const pe_win::image_resource_directory h = { 0x81000001, 0x81000002, 0x8103, 0x8104, 7, 8 };
        { Model q; q.n["characteristics"] = 0x81000001; q.n["timestamp"] = 0x81000002; q.n["major_version"] = 0x8103; q.n["minor_version"] = 0x8104; f->start("given", [] { return D(h); }, q); }
        V((*f), D, characteristics); V((*f), D, timestamp); V((*f), D, major_version); V((*f), D, number_of_named_entries); V((*f), D, number_of_id_entries);
        f->value<uint16_t, uint16_t>("minor_version", &D::get_minor_version, &D::get_minor_version);
        for(uint32_t q = 0; q < 4; ++q) f->op("add" + std::to_string(q), [q](D& y) { E x; if(q < 2) x.set_id(q + 1); else x.set_name(q == 2 ? L"n2" : L"n3"); x.add_data_entry(resource_data_entry("", q)); y.add_resource_directory_entry(x); },
            [q](Model& y) { y.l["e"].push_back(num(q)); y.n[q < 2 ? "number_of_id_entries" : "number_of_named_entries"] = static_cast<uint32_t>(at(y, q < 2 ? "number_of_id_entries" : "number_of_named_entries") + 1); });
        f->op("clear", [](D& y) { y.clear_resource_directory_entry_list(); }, [](Model& y) { y.l["e"].clear(); y.n["number_of_id_entries"] = y.n["number_of_named_entries"] = 0; });
        f->ask("entries", [](const D& y) { std::vector<uint32_t> v; for(size_t q = 0; q < y.get_entry_list().size(); ++q) v.push_back(y.get_entry_list()[q].get_data_entry().get_codepage()); return words(v); }, [](const Model& y) { return join(list_at(y, "e")); });
        // the first entry with the key is found, and only that
        for(uint32_t q = 0; q < 5; ++q) f->ask("find" + std::to_string(q), [q](const D& y) { try { const E& x = q == 4 ? y.entry_by_name(L"other") : q < 2 ? y.entry_by_id(q + 1) : y.entry_by_name(q == 2 ? L"n2" : L"n3"); return num(x.get_data_entry().get_codepage()); } catch(const pe_exception&) { return Bytes("none"); } },
            [q](const Model& y) { const std::vector<Bytes> l = list_at(y, "e"); return std::find(l.begin(), l.end(), num(q)) == l.end() ? Bytes("none") : num(q); });
        k = a; n = i; e = b; d = f;
    }
    const int w = c.choose(4, "kind");
    if(w == 0) k->explore(c, "resource data"); else if(w == 1) n->explore(c, "resource information"); else if(w == 2) e->explore(c, "resource entry"); else d->explore(c, "resource directory");
}
static void version(mc::Ctx& c)
{
    typedef file_version_info F;
    static const Kind<F>* k = 0;
    if(!k)
    {
        Kind<F>* a = new Kind<F>;
        a->start("new", [] { return F(); }, Model());
        pe_win::vs_fixedfileinfo h; memset(&h, 0xee, sizeof(h));
        h.dwFileVersionMS = 0x81000001; h.dwFileVersionLS = 0x81000002; h.dwProductVersionMS = 0x81000003; h.dwProductVersionLS = 0x81000004; h.dwFileFlags = 0x81000005; h.dwFileOS = 0x81000006; h.dwFileType = 0x81000007; h.dwFileSubtype = 0x81000008; h.dwFileDateMS = 0x81000009; h.dwFileDateLS = 0x8100000a;
        static const char* n[] = { "file_version_ms", "file_version_ls", "product_version_ms", "product_version_ls", "file_flags", "file_os_raw", "file_type_raw", "file_subtype", "file_date_ms", "file_date_ls" };
        Model m; for(unsigned i = 0; i < 10; ++i) m.n[n[i]] = 0x81000001u + i;
        a->start("given", [h] { return F(h); }, m);
        V((*a), F, file_version_ms); V((*a), F, file_version_ls); V((*a), F, product_version_ms); V((*a), F, product_version_ls); V((*a), F, file_flags); V((*a), F, file_os_raw); V((*a), F, file_type_raw); V((*a), F, file_subtype); V((*a), F, file_date_ms); V((*a), F, file_date_ls);
        struct B { const char* n; void (F::*set)(bool); bool (F::*get)() const; uint32_t bit; };
        static const B bs[] = { { "debug", &F::set_debug, &F::is_debug, 1 }, { "prerelease", &F::set_prerelease, &F::is_prerelease, 2 }, { "patched", &F::set_patched, &F::is_patched, 4 }, { "private", &F::set_private_build, &F::is_private_build, 8 },
            { "inferred", &F::set_info_inferred, &F::is_info_inferred, 16 }, { "special", &F::set_special_build, &F::is_special_build, 32 } };
        for(int i = 0; i < 6; ++i)
        {
            const B f = bs[i];
            for(int b = 0; b < 2; ++b) a->op(std::string(f.n) + (b ? "+" : "-"), [f, b](F& x) { (x.*f.set)(b != 0); }, [f, b](Model& y) { if(b) y.n["file_flags"] |= f.bit; else y.n["file_flags"] &= ~uint64_t(f.bit); });
            a->ask(f.n, [f](const F& x) { return enc((x.*f.get)()); }, [f](const Model& y) { return num((at(y, "file_flags") & f.bit) != 0); });
        }
        struct O { F::file_os_type t; uint32_t v; }; struct T { F::file_type t; uint32_t v; };
        static const O os[] = { { F::file_os_dos, 0x10000 }, { F::file_os_os216, 0x20000 }, { F::file_os_os232, 0x30000 }, { F::file_os_nt, 0x40000 }, { F::file_os_wince, 0x50000 }, { F::file_os_win16, 1 }, { F::file_os_pm16, 2 }, { F::file_os_pm32, 3 }, { F::file_os_win32, 4 },
            { F::file_os_dos_win16, 0x10001 }, { F::file_os_dos_win32, 0x10004 }, { F::file_os_os216_pm16, 0x20002 }, { F::file_os_os232_pm32, 0x30003 }, { F::file_os_nt_win32, 0x40004 } };
        static const T ty[] = { { F::file_type_application, 1 }, { F::file_type_dll, 2 }, { F::file_type_driver, 3 }, { F::file_type_font, 4 }, { F::file_type_vxd, 5 }, { F::file_type_static_lib, 7 } };
        for(int i = 0; i < 14; ++i) { const O o = os[i]; a->op("os" + std::to_string(i), [o](F& x) { x.set_file_os(o.t); }, [o](Model& y) { y.n["file_os_raw"] = o.v; }); }
        for(int i = 0; i < 6; ++i) { const T t = ty[i]; a->op("type" + std::to_string(i), [t](F& x) { x.set_file_type(t.t); }, [t](Model& y) { y.n["file_type_raw"] = t.v; }); }
        a->ask("file_os", [](const F& x) { return enc(x.get_file_os()); }, [](const Model& y) { F::file_os_type t = F::file_os_unknown; for(int i = 0; i < 14; ++i) if(os[i].v == at(y, "file_os_raw")) t = os[i].t; return enc(t); });
        a->ask("file_type", [](const F& x) { return enc(x.get_file_type()); }, [](const Model& y) { F::file_type t = F::file_type_unknown; for(int i = 0; i < 6; ++i) if(ty[i].v == at(y, "file_type_raw")) t = ty[i].t; return enc(t); });
        for(int p = 0; p < 2; ++p)
        {
            const std::string who = p ? "product" : "file";
            const auto text = [who](const Model& y) { char b[64]; const uint32_t h = static_cast<uint32_t>(at(y, (who + "_version_ms").c_str())), l = static_cast<uint32_t>(at(y, (who + "_version_ls").c_str())); snprintf(b, sizeof(b), "%u.%u.%u.%u", h >> 16, h & 0xffff, l >> 16, l & 0xffff); return Bytes(b); };
            a->ask(who + " version text", [p](const F& x) { return p ? x.get_product_version_string<char>() : x.get_file_version_string<char>(); }, text);
            a->ask(who + " version wide text", [p](const F& x) { return enc(p ? x.get_product_version_string<wchar_t>() : x.get_file_version_string<wchar_t>()); }, [text](const Model& y) { const Bytes b = text(y); return enc(std::wstring(b.begin(), b.end())); });
        }
        k = a;
    }
    k->explore(c, "fixed version information");
}
// One text, of one kind at a time
static void messages(mc::Ctx& c)
{
    typedef message_table_item I;
    static const Kind<I>* k = 0;
    if(!k)
    {
        Kind<I>* a = new Kind<I>;
        a->start("new", [] { return I(); }, Model());
        // zero characters at the end are padding
        const struct { Bytes given, held; } t[] = { { "a", "a" }, { "", "" }, { Bytes("x\0y\0\0", 5), Bytes("x\0y", 3) }, { Bytes(300, 'z'), Bytes(300, 'z') }, { Bytes(2, '\0'), "" } };
        for(int i = 0; i < 5; ++i) for(int w = 0; w < 2; ++w)
        {
            const Bytes g = t[i].given, h = t[i].held; const std::wstring wg(g.begin(), g.end()), wh(h.begin(), h.end());
            Model m; m.n["unicode"] = w; m.s[w ? "unicode" : "ansi"] = w ? enc(wh) : h;
            a->start("given", [g, wg, w] { return w ? I(wg) : I(g); }, m);
            a->op((w ? "unicode" : "ansi") + std::to_string(i), [g, wg, w](I& x) { if(w) x.set_string(wg); else x.set_string(g); }, [m](Model& x) { x = m; });
        }
        a->ask("unicode", [](const I& x) { return enc(x.is_unicode()); }, [](const Model& m) { return num(at(m, "unicode")); });
        a->ask("ansi-text", [](const I& x) { return x.get_ansi_string(); }, [](const Model& m) { return text_at(m, "ansi"); });
        a->ask("unicode-text", [](const I& x) { return enc(x.get_unicode_string()); }, [](const Model& m) { return text_at(m, "unicode"); });
        k = a;
    }
    k->explore(c, "message");
}
// Objects that are only made from structures: every field has its own value
static void readonly(mc::Ctx& c)
{
    static const Kind<basic_dotnet_info>* k = 0; static const Kind<exception_entry>* e = 0;
    if(!k)
    {
        Kind<basic_dotnet_info>* a = new Kind<basic_dotnet_info>;
        typedef basic_dotnet_info I;
        a->start("new", [] { return I(); }, Model());
        for(unsigned fl = 0; fl < 32; ++fl)
        {
            pe_win::image_cor20_header h; memset(&h, 0, sizeof(h));
            uint32_t* w = reinterpret_cast<uint32_t*>(&h);
            for(unsigned i = 0; i < sizeof(h) / 4; ++i) w[i] = 0x81000000u + i;
            h.MajorRuntimeVersion = 0x8101; h.MinorRuntimeVersion = 0x8102; h.Flags = fl | 0x40000000;
            Model m;
            m.n["major"] = 0x8101; m.n["minor"] = 0x8102; m.n["flags"] = h.Flags;
            static const char* f[] = { "metadata", "resources", "strong", "code", "vtable", "jumps", "native" };
            static const unsigned at_[] = { 2, 6, 8, 10, 12, 14, 16 };
            for(int i = 0; i < 7; ++i) { m.n[std::string(f[i]) + " rva"] = 0x81000000u + at_[i]; m.n[std::string(f[i]) + " size"] = 0x81000001u + at_[i]; }
            m.n["entry"] = 0x81000005; m.n["is native"] = fl >> 4 & 1; m.n["32bit"] = fl >> 1 & 1; m.n["library"] = fl >> 2 & 1; m.n["il only"] = fl & 1;
            a->start(std::to_string(fl), [h] { return I(h); }, m);
        }
        a->get("major", &I::get_major_runtime_version); a->get("minor", &I::get_minor_runtime_version); a->get("flags", &I::get_flags); a->get("entry", &I::get_entry_point_rva_or_token);
        a->get("metadata rva", &I::get_rva_of_metadata); a->get("metadata size", &I::get_size_of_metadata); a->get("resources rva", &I::get_rva_of_resources); a->get("resources size", &I::get_size_of_resources);
        a->get("strong rva", &I::get_rva_of_strong_name_signature); a->get("strong size", &I::get_size_of_strong_name_signature); a->get("code rva", &I::get_rva_of_code_manager_table); a->get("code size", &I::get_size_of_code_manager_table);
        a->get("vtable rva", &I::get_rva_of_vtable_fixups); a->get("vtable size", &I::get_size_of_vtable_fixups); a->get("jumps rva", &I::get_rva_of_export_address_table_jumps); a->get("jumps size", &I::get_size_of_export_address_table_jumps);
        a->get("native rva", &I::get_rva_of_managed_native_header); a->get("native size", &I::get_size_of_managed_native_header);
        a->get("is native", &I::is_native_entry_point); a->get("32bit", &I::is_32bit_required); a->get("library", &I::is_il_library); a->get("il only", &I::is_il_only);
        Kind<exception_entry>* b = new Kind<exception_entry>;
        typedef exception_entry X;
        b->start("new", [] { return X(); }, Model());
        // every value of the four bytes' bit fields
        for(unsigned i = 0; i < 512; ++i)
        {
            pe_win::image_runtime_function_entry f; memset(&f, 0, sizeof(f));
            f.BeginAddress = 0x81000001; f.EndAddress = 0x81000002; f.UnwindInfoAddress = 0x81000003;
            pe_win::unwind_info u; memset(&u, 0, sizeof(u));
            const unsigned lo = i % 256;
            reinterpret_cast<uint8_t*>(&u)[0] = static_cast<uint8_t>(i < 256 ? lo : 0x21); u.SizeOfProlog = 0x84; u.CountOfCodes = 0x85; reinterpret_cast<uint8_t*>(&u)[3] = static_cast<uint8_t>(i < 256 ? 0x95 : lo);
            Model m;
            m.n["begin"] = 0x81000001; m.n["end"] = 0x81000002; m.n["unwind"] = 0x81000003; m.n["prolog"] = 0x84; m.n["slots"] = 0x85;
            const unsigned first = i < 256 ? lo : 0x21, fourth = i < 256 ? 0x95 : lo;
            m.n["version"] = first & 7; m.n["flags"] = first >> 3; m.n["handler"] = first >> 3 & 1; m.n["termination"] = first >> 4 & 1; m.n["chain"] = first >> 5 & 1;
            m.n["frame"] = (fourth & 15) != 0; m.n["register"] = fourth & 15; m.n["offset"] = fourth >> 4;
            b->start(std::to_string(i), [f, u] { return X(f, u); }, m);
        }
        b->get("begin", &X::get_begin_address); b->get("end", &X::get_end_address); b->get("unwind", &X::get_unwind_info_address); b->get("version", &X::get_unwind_info_version); b->get("flags", &X::get_flags); b->get("handler", &X::has_exception_handler);
        b->get("termination", &X::has_termination_handler); b->get("chain", &X::is_chaininfo); b->get("prolog", &X::get_size_of_prolog); b->get("slots", &X::get_number_of_unwind_slots); b->get("frame", &X::uses_frame_pointer);
        b->get("register", &X::get_frame_pointer_register_number); b->get("offset", &X::get_scaled_rsp_offset);
        k = a; e = b;
    }
    if(c.flip("kind")) k->explore(c, ".NET header"); else e->explore(c, "exception entry");
}
namespace mc
{
#define RULE "every sequence of setters (as many steps as stay below 60000 (2000000) sequences, at least 2) over boundary values from every way to create the object; every question asked after each step, of the object, a copy made before and an assigned one; a state is all answers"
const Part parts[] = {
    { "sections", sections, 0, 0, RULE },
    { "imports", imports, 0, 0, RULE },
    { "exports", exports, 0, 0, RULE },
    { "relocations", relocations, 0, 0, RULE },
    { "tls", tls, 0, 0, RULE },
    { "load-configuration", config, 0, 0, RULE },
    { "small", bound, 0, 0, RULE },
    { "debug", debug, 0, 0, RULE },
    { "resources", resources, 0, 0, RULE },
    { "version", version, 0, 0, RULE },
    { "messages", messages, 0, 0, RULE },
    { "from-structures", readonly, 0, 0, "every combination of flags; every field has its own value" },
};
const int part_count = sizeof(parts) / sizeof(parts[0]);
}
