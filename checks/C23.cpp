// C23: Directory readers decode exactly what is stored.
#include "util.h"
#include "lay.h"
using namespace u;
using namespace lay;
const char* const mc::check_id = "C23";

static bool one_place;
static int place_of(mc::Ctx& c, bool headers = true) { return one_place ? 0 : c.choose(headers ? places : places - 1, "place"); }

// Large contents: counts and lengths are given, everything else follows a pattern
struct Big { bool on; int n, k, len, pat; };
static Big big;
static int count(mc::Ctx& c, int n, const char* what) { return big.on ? big.n : c.choose(n, what); }
static int count2(mc::Ctx& c, int n, const char* what) { return big.on ? big.k : c.choose(n, what); }
static int sort_of(mc::Ctx& c, int n, int i, const char* what) { return big.on ? (i * (big.pat + 1) + big.pat * (i / 7)) % n : c.choose(n, what); }
static Bytes name_of(const char* s, int i) { return big.on ? s + std::to_string(i) + Bytes(big.len, static_cast<char>('a' + i % 26)) : Bytes(s); }

// ---------------------------------------------------------------- imports
static const char* const libs[] = { "a.b", "A.B", "KERNEL32.dll" };
static const char* const funcs[] = { "x", "X", "CreateFileW", "?mangled@@YAXXZ", "_with blanks and \xe9" };
static const uint16_t hints[] = { 0, 1, 0x1234, 0xffff };
static const uint16_t ords[] = { 1, 0, 0x7fff, 0xffff };
static void imports(mc::Ctx& c)
{
    const bool p64 = c.flip("PE+");
    Lay l(p64, place_of(c));
    const unsigned w = p64 ? 8 : 4;
    const uint64_t flag = p64 ? 0x8000000000000000ULL : 0x80000000u;
    struct F { bool ord; uint16_t o; Bytes n; uint64_t iat; };
    struct L { Bytes n; uint32_t stamp; int ilt, iat; std::vector<F> f; };
    std::vector<L> want;
    Piece desc(4);
    const int n = count(c, mc::tier_pick(2, 3), "libraries") + 1;
    l.plain = big.on;
    std::vector<Piece> iats; std::vector<int> iatpos;
    for(int i = 0; i < n; ++i)
    {
        L x;
        x.n = name_of(libs[(i + c.dev(3, "library name")) % 3], i);
        const int form = sort_of(c, 3, i, "tables: both / bound / no original");
        static const uint32_t st[] = { 0, 0xffffffffu, 0x4a4b4c4d };
        x.stamp = form == 1 ? st[1 + c.dev(2, "time")] : c.pickdev(st, "time");
        Piece name(2); name.str(x.n);
        const int in = l.add(name);
        const int nf = count2(c, 3, "functions");
        Piece ilt(w), iat(w);
        std::vector<F> fs;
        for(int k = 0; k < nf; ++k)
        {
            F f;
            f.ord = sort_of(c, 2, k, "by ordinal") != 0; f.o = f.ord ? c.pickdev(ords, "ordinal") : c.pickdev(hints, "hint");
            Piece* both[2] = { &ilt, &iat };
            f.iat = 0;
            if(f.ord) { for(int t = 0; t < 2; ++t) both[t]->v(flag | f.o, w); }
            else
            {
                f.n = name_of(funcs[(k + c.dev(5, "function name")) % 5], k);
                Piece h(c.dev(2, "unaligned name") ? 1 : 2); h.v(f.o, 2); h.str(f.n);
                const int ih = l.add(h);
                for(int t = 0; t < 2; ++t) both[t]->ref_(ih, w);
            }
            if(form == 1)
            {
                // the address the binder put there
                f.iat = (p64 ? 0x7ff812340000ULL : 0x76540000u) + 16 * k;
                ref::put(iat.b, iat.b.size() - w, f.iat, w);
                if(!f.ord) iat.f.pop_back();
            }
            fs.push_back(f);
        }
        ilt.v(0, w); iat.v(0, w);
        x.f = fs;
        x.ilt = form == 2 ? -1 : l.add(ilt);
        x.iat = l.add(iat);
        if(x.ilt >= 0) desc.ref_(x.ilt); else desc.v(0, 4);
        desc.v(x.stamp, 4); desc.v(form == 1 ? 0xffffffffu : 0, 4); desc.ref_(in); desc.ref_(x.iat);
        want.push_back(x);
    }
    desc.b += Bytes(20, 0);
    const int id = l.add(desc);
    // loaders find the end of the tables by their null entries, whatever size is stated
    const uint64_t stated[] = { desc.b.size(), 20, 1, 40 };
    if(!l.build(c, 1, c.pickdev(stated, "stated size"), id)) return;
    pe_base pe(open_pe(l.file));
    c.step();
    imported_functions_list got;
    try { got = get_imported_functions(pe); }
    catch(const pe_exception& e) { c.fail("imports-refused", "well-formed imports of %zu libraries are refused: %s", want.size(), e.what()); }
    MC_REQUIRE(c, got.size() == want.size(), "imports-count", "%zu libraries read, %zu stored", got.size(), want.size());
    const ref::Mem m = ref::Mem::map(ref::Img::parse(l.file));
    for(size_t i = 0; i < got.size(); ++i)
    {
        const L& x = want[i];
        MC_REQUIRE(c, got[i].get_name() == x.n && got[i].get_timestamp() == x.stamp && got[i].get_rva_to_iat() == l.at[x.iat] && got[i].get_rva_to_original_iat() == (x.ilt < 0 ? 0 : l.at[x.ilt]),
            "import-library", "library %zu: '%s' time %#x tables %#x/%#x read, '%s' %#x %#x stored", i, got[i].get_name().c_str(), got[i].get_timestamp(), got[i].get_rva_to_original_iat(), got[i].get_rva_to_iat(), x.n.c_str(), x.stamp, l.at[x.iat]);
        const import_library::imported_list& f = got[i].get_imported_functions();
        MC_REQUIRE(c, f.size() == x.f.size(), "import-functions", "library %zu: %zu functions read, %zu stored", i, f.size(), x.f.size());
        for(size_t k = 0; k < f.size(); ++k)
        {
            const F& y = x.f[k];
            MC_REQUIRE(c, f[k].has_name() == !y.ord && f[k].get_name() == y.n && (y.ord ? f[k].get_ordinal() : f[k].get_hint()) == y.o,
                "import-function", "library %zu function %zu: '%s' hint %u ordinal %u read, '%s' %u stored", i, k, f[k].get_name().c_str(), f[k].get_hint(), f[k].get_ordinal(), y.n.c_str(), y.o);
            MC_REQUIRE(c, f[k].get_iat_va() == m.rd(l.at[x.iat] + w * k, w), "import-iat", "library %zu function %zu: address table holds %#llx, %#llx read", i, k, static_cast<unsigned long long>(m.rd(l.at[x.iat] + w * k, w)), static_cast<unsigned long long>(f[k].get_iat_va()));
        }
    }
    c.outcome(mc::hash(l.file));
}

// ---------------------------------------------------------------- exports
static void exports(mc::Ctx& c)
{
    Lay l(c.flip("PE+"), place_of(c));
    struct F { uint16_t ord; int64_t rva; int piece; bool named; Bytes n; uint16_t no; bool fwd; Bytes fn; };
    std::vector<F> want;
    static const uint32_t bases[] = { 1, 0, 7, 0x10000 };
    uint32_t base = c.pickdev(bases, "ordinal base");
    const int n = count(c, mc::tier_pick(3, 4), "functions");
    if(base == 0x10000) base -= n ? n : 1;      // the last function has the highest ordinal
    l.plain = big.on;
    static const char* const nm[] = { "beta", "alpha", "z", "Gamma delta" };
    static const char* const fw[] = { "NTDLL.RtlAlloc", "a.#7", "K.x" };
    // header, then the forwarder strings: together they are the directory
    Piece h(4);
    const int ih = 0; l.add(h);
    Piece fn(4), nt(4), no(2);
    std::vector<int> kinds;
    std::vector<std::pair<Bytes, int> > names;          // name, function index
    Bytes fwdstr;
    std::vector<uint32_t> fwdoff(n, 0);
    static const uint32_t special[] = { code_rva + 0x10, 0x7ffffff0, 0xfffffffcu, 8 };
    for(int i = 0; i < n; ++i)
    {
        const int k = sort_of(c, 6, i, "function: skipped / code / forwarder / behind the directory / before it / odd address");
        kinds.push_back(k);
        if(k == 2) { fwdoff[i] = 40 + fwdstr.size(); fwdstr += fw[c.dev(3, "forwarder")]; if(big.on) fwdstr += std::to_string(i) + Bytes(big.len, 'F'); fwdstr.push_back(0); }
        if(k && sort_of(c, 2, i / 2, "named")) names.push_back(std::make_pair(name_of(nm[(i + c.dev(4, "name")) % 4], i), i));
    }
    std::sort(names.begin(), names.end());
    for(size_t i = 1; i < names.size(); ++i) if(names[i - 1].first == names[i].first) return;
    const uint32_t dirsize = 40 + fwdstr.size();
    for(int i = 0; i < n; ++i)
    {
        F f; f.ord = static_cast<uint16_t>(base + i); f.rva = -1; f.piece = -1; f.named = false; f.no = 0; f.fwd = false;
        switch(kinds[i])
        {
        case 0: fn.v(0, 4); break;
        case 1: f.rva = code_rva + 0x20 * (i % 15 + 1); fn.v(f.rva, 4); break;
        case 2: f.piece = ih; f.rva = fwdoff[i]; f.fwd = true; f.fn = fwdstr.substr(fwdoff[i] - 40).c_str(); fn.ref_(ih, 4, fwdoff[i]); break;
        case 3: f.piece = ih; f.rva = dirsize; fn.ref_(ih, 4, dirsize); break;
        case 4: f.piece = ih; f.rva = -1; fn.ref_(ih, 4, -1); break;
        default: f.rva = special[sort_of(c, 4, i, "address")]; fn.v(f.rva, 4); break;
        }
        for(size_t k = 0; k < names.size(); ++k) if(names[k].second == i) { f.named = true; f.n = names[k].first; f.no = static_cast<uint16_t>(i); }
        if(kinds[i]) want.push_back(f);
    }
    Piece dll; dll.str(c.dev(2, "dll name") ? "x" : "library.dll");
    const int idll = l.add(dll);
    const int ifn = n ? l.add(fn) : -1;
    for(size_t k = 0; k < names.size(); ++k) { Piece s; s.str(names[k].first); nt.ref_(l.add(s)); no.v(names[k].second, 2); }
    const bool absent = names.empty() && !big.on && c.flip("no name tables");
    const int int_ = absent ? -1 : l.add(nt), ino = absent ? -1 : l.add(no);
    static const uint32_t words[] = { 0x5a5b5c5d, 0, 0xffffffffu };
    static const uint16_t halves[] = { 0x102, 0, 0xffff };
    const uint32_t ch = c.pickdev(words, "characteristics"), ts = c.pickdev(words, "time");
    const uint16_t mj = c.pickdev(halves, "major"), mi = c.pickdev(halves, "minor");
    h.v(ch, 4); h.v(ts, 4); h.v(mj, 2); h.v(mi, 2); h.ref_(idll); h.v(base, 4); h.v(n, 4); h.v(names.size(), 4);
    if(ifn >= 0) h.ref_(ifn); else h.v(0, 4);
    if(absent) { h.v(0, 4); h.v(0, 4); } else { h.ref_(int_); h.ref_(ino); }
    h.b += fwdstr;
    l.p[ih] = h;
    if(!l.build(c, 0, dirsize, ih)) return;
    pe_base pe(open_pe(l.file));
    c.step();
    export_info info;
    exported_functions_list got, alone;
    try { got = get_exported_functions(pe, info); alone = get_exported_functions(pe); }
    catch(const pe_exception& e) { c.fail("exports-refused", "well-formed exports of %d functions are refused: %s", n, e.what()); }
    MC_REQUIRE(c, info.get_characteristics() == ch && info.get_timestamp() == ts && info.get_major_version() == mj && info.get_minor_version() == mi && info.get_name() == dll.b.c_str(),
        "export-info", "characteristics %#x time %#x version %u.%u name '%s' read", info.get_characteristics(), info.get_timestamp(), info.get_major_version(), info.get_minor_version(), info.get_name().c_str());
    MC_REQUIRE(c, info.get_ordinal_base() == base && info.get_number_of_functions() == static_cast<uint32_t>(n) && info.get_number_of_names() == names.size() && info.get_rva_of_functions() == (ifn < 0 ? 0 : l.at[ifn])
        && info.get_rva_of_names() == (absent ? 0 : l.at[int_]) && info.get_rva_of_name_ordinals() == (absent ? 0 : l.at[ino]), "export-info", "base %u, %u functions, %u names read; %u, %d, %zu stored", info.get_ordinal_base(), info.get_number_of_functions(), info.get_number_of_names(), base, n, names.size());
    MC_REQUIRE(c, got.size() == want.size() && alone.size() == want.size(), "exports-count", "%zu functions read, %zu stored", got.size(), want.size());
    for(size_t i = 0; i < got.size(); ++i)
        for(int t = 0; t < 2; ++t)
        {
            const exported_function& g = t ? alone[i] : got[i];
            const F& x = want[i];
            const uint32_t rva = static_cast<uint32_t>(x.piece < 0 ? x.rva : l.at[x.piece] + x.rva);
            MC_REQUIRE(c, g.get_ordinal() == x.ord && g.get_rva() == rva, "export-function", "function %zu: ordinal %u at %#x read, %u at %#x stored", i, g.get_ordinal(), g.get_rva(), x.ord, rva);
            MC_REQUIRE(c, g.has_name() == x.named && g.get_name() == x.n && (!x.named || g.get_name_ordinal() == x.no), "export-name", "function %zu: name '%s' read, '%s' stored", i, g.get_name().c_str(), x.n.c_str());
            MC_REQUIRE(c, g.is_forwarded() == x.fwd && g.get_forwarded_name() == x.fn, "export-forwarder", "function %zu: forwarder '%s' read, '%s' stored", i, g.get_forwarded_name().c_str(), x.fn.c_str());
        }
    c.outcome(mc::hash(l.file));
}

// ---------------------------------------------------------------- relocations
static void relocs(mc::Ctx& c)
{
    Lay l(c.flip("PE+"), place_of(c));
    struct B { uint32_t rva; std::vector<uint16_t> e; };
    std::vector<B> want;
    static const uint32_t pages[] = { 0x1000, 0, 0x2000, 0xfffff000u, 0x1004 };
    static const uint16_t es[] = { 0x3004, 0, 0xa008, 0x1002, 0x2ffe, 0x4000, 0x0123, 0xffff };
    Piece p(4);
    const int n = 1 + count(c, mc::tier_pick(2, 3), "blocks");
    l.plain = big.on;
    for(int i = 0; i < n; ++i)
    {
        B b;
        b.rva = pages[(i + c.dev(5, "page")) % 5];
        const int k = big.on && i % 3 == 1 ? 0 : count2(c, 3, "entries");
        for(int j = 0; j < k; ++j) b.e.push_back(big.on ? static_cast<uint16_t>(es[sort_of(c, 8, j, "entry")] + 4 * (j % 64)) : j ? c.pickdev(es, "entry") : c.pick(es, "entry"));
        p.v(b.rva, 4); p.v(8 + 2 * k, 4);
        for(int j = 0; j < k; ++j) p.v(b.e[j], 2);
        want.push_back(b);
    }
    uint32_t size = p.b.size();
    const int end = c.choose(3, "end: exact / null block counted / null block not counted");
    if(end) p.b += Bytes(8, 0);
    if(end == 1) size += 8;
    const int id = l.add(p);
    if(!l.build(c, 5, size, id)) return;
    pe_base pe(open_pe(l.file));
    c.step();
    for(int t = 0; t < 2; ++t)
    {
        relocation_table_list got;
        try { got = get_relocations(pe, t == 1); }
        catch(const pe_exception& e) { c.fail("relocations-refused", "well-formed relocations of %zu blocks are refused: %s", want.size(), e.what()); }
        MC_REQUIRE(c, got.size() == want.size(), "relocation-blocks", "%zu blocks read, %zu stored", got.size(), want.size());
        for(size_t i = 0; i < got.size(); ++i)
        {
            std::vector<uint16_t> x;
            for(size_t k = 0; k < want[i].e.size(); ++k) if(t == 1 || want[i].e[k] >> 12) x.push_back(want[i].e[k]);
            const relocation_table::relocation_list& r = got[i].get_relocations();
            MC_REQUIRE(c, got[i].get_rva() == want[i].rva && r.size() == x.size(), "relocation-block", "block %zu: %#x with %zu entries read, %#x with %zu stored", i, got[i].get_rva(), r.size(), want[i].rva, x.size());
            for(size_t k = 0; k < r.size(); ++k)
                MC_REQUIRE(c, r[k].get_type() == x[k] >> 12 && r[k].get_rva() == (x[k] & 0xfff) && r[k].get_item() == x[k], "relocation-entry", "block %zu entry %zu: type %u at %#x read, %#x stored", i, k, r[k].get_type(), r[k].get_rva(), x[k]);
        }
    }
    c.outcome(mc::hash(l.file));
}

// ---------------------------------------------------------------- TLS
static void tls(mc::Ctx& c)
{
    const bool p64 = c.flip("PE+");
    Lay l(p64, place_of(c));
    const unsigned w = p64 ? 8 : 4;
    static const int lens[] = { 0, 1, 3, 0x20 };
    const int rawform = c.choose(6, "raw data: none / length / elsewhere");
    Bytes raw;
    int iraw = -1, icb = -1, idx = -1;
    if(rawform >= 1 && rawform <= 4) { raw = img::pattern(big.on ? big.len + lens[rawform - 1] : lens[rawform - 1], 3); if(c.dev(2, "zero bytes at its end") && raw.size() > 1) raw[raw.size() - 1] = 0; Piece p(4); p.b = raw; iraw = l.add(p); }
    if(rawform == 5) raw = img::pattern(code_size, 9).substr(0x40, 0x30);
    std::vector<uint32_t> cbs;
    l.plain = big.on;
    const int ncb = count(c, mc::tier_pick(4, 5), "callbacks") - (big.on ? 0 : 1);
    if(ncb >= 0)
    {
        Piece p(w);
        static const uint32_t fs[] = { code_rva + 4, code_rva, 0x3000, 0xff0000, 0 };
        for(int i = 0; i < ncb; ++i) { cbs.push_back(fs[(i + c.dev(5, "callback")) % 5]); p.ref_(-1, w, cbs.back(), true); }
        p.v(0, w);
        icb = l.add(p);
    }
    if(c.flip("index")) { Piece p(4); p.v(0, 4); idx = l.add(p); }
    static const uint32_t words[] = { 0, 1, 0x300000, 0xffffffffu };
    const uint32_t zf = c.pickdev(words, "zero fill"), ch = c.pickdev(words, "characteristics");
    Piece d(w);
    if(iraw >= 0) { d.ref_(iraw, w, 0, true); d.ref_(iraw, w, raw.size(), true); }
    else if(rawform == 5) { d.ref_(-1, w, code_rva + 0x40, true); d.ref_(-1, w, code_rva + 0x70, true); }
    else { d.v(0, w); d.v(0, w); }
    if(idx >= 0) d.ref_(idx, w, 0, true); else d.v(0, w);
    if(icb >= 0) d.ref_(icb, w, 0, true); else d.v(0, w);
    d.v(zf, 4); d.v(ch, 4);
    const int id = l.add(d);
    if(l.place == 4 && rawform == 1) return;            // empty data behind the headers names no address
    const uint64_t stated[] = { d.b.size(), 1, 16 };
    if(!l.build(c, 9, c.pickdev(stated, "stated size"), id)) return;
    pe_base pe(open_pe(l.file));
    c.step();
    tls_info t;
    try { t = get_tls_info(pe); }
    catch(const pe_exception& e) { c.fail("tls-refused", "a well-formed TLS directory is refused: %s", e.what()); }
    const uint32_t rs = iraw >= 0 ? l.at[iraw] : rawform == 5 ? code_rva + 0x40 : 0;
    MC_REQUIRE(c, t.get_raw_data_start_rva() == rs && t.get_raw_data_end_rva() == rs + raw.size() && t.get_index_rva() == (idx < 0 ? 0 : l.at[idx]) && t.get_callbacks_rva() == (icb < 0 ? 0 : l.at[icb]),
        "tls-addresses", "raw data %#x-%#x index %#x callbacks %#x read; %#x+%zu %#x %#x stored", t.get_raw_data_start_rva(), t.get_raw_data_end_rva(), t.get_index_rva(), t.get_callbacks_rva(), rs, raw.size(), idx < 0 ? 0 : l.at[idx], icb < 0 ? 0 : l.at[icb]);
    MC_REQUIRE(c, t.get_size_of_zero_fill() == zf && t.get_characteristics() == ch, "tls-fields", "zero fill %#x characteristics %#x read, %#x %#x stored", t.get_size_of_zero_fill(), t.get_characteristics(), zf, ch);
    MC_REQUIRE(c, t.get_raw_data() == raw, "tls-data", "%zu bytes of raw data read, %zu stored", t.get_raw_data().size(), raw.size());
    MC_REQUIRE(c, t.get_tls_callbacks() == cbs, "tls-callbacks", "%zu callbacks read, %zu stored", t.get_tls_callbacks().size(), cbs.size());
    c.outcome(mc::hash(l.file));
}

// ---------------------------------------------------------------- load configuration
static void config(mc::Ctx& c)
{
    const bool p64 = c.flip("PE+");
    Lay l(p64, place_of(c, false));
    const unsigned w = p64 ? 8 : 4;
    static const uint64_t vals[] = { 0x0102030405060708ULL, 0, ~0ULL };
    std::vector<uint32_t> se, lp;
    int ise = -1, ilp = -1;
    l.plain = big.on;
    const int nse = count(c, 4, "handlers");
    if(nse) { Piece p(4); for(int i = 0; i < nse; ++i) { static const uint32_t hs[] = { 0x1010, 0x1004, 0, 0xfffffff0u }; se.push_back(hs[(i + c.dev(4, "handler")) % 4] + (big.on ? i / 4 * 16 : 0)); p.v(se.back(), 4); } ise = l.add(p); }
    const int nlp = count2(c, 4, "lock prefixes") - (big.on ? 0 : 1);
    if(nlp >= 0) { Piece p(w); for(int i = 0; i < nlp; ++i) { lp.push_back(code_rva + 7 * i + c.dev(2, "prefix")); p.ref_(-1, w, lp.back(), true); } p.v(0, w); ilp = l.add(p); }
    static const uint32_t more[] = { 0, 4, 0x30, 0x7fffff };
    const uint32_t extra = c.pickdev(more, "larger stated size");
    Piece d(w);
    uint64_t v[16]; int nv = 0;
#define V(width) do { v[nv] = c.pickdev(vals, "field") & (width == 8 ? ~0ULL : (1ULL << (8 * (width))) - 1); if(width == 2) v[nv] &= 0xffff; d.v(v[nv], width); ++nv; } while(0)
    d.v((p64 ? 112 : 72) + extra, 4);
    V(4); V(2); V(2); V(4); V(4); V(4);                     // 0 stamp 1 major 2 minor 3 clear 4 set 5 timeout
    V(w); V(w);                                             // 6 free block 7 total free
    if(ilp >= 0) d.ref_(ilp, w, 0, true); else d.v(0, w);
    V(w); V(w);                                             // 8 max allocation 9 memory threshold
    if(p64) { V(8); V(4); } else { V(4); V(4); }            // 10, 11: affinity and heap flags, in this order in 64-bit images, swapped in 32-bit ones
    V(2); V(2);                                             // 12 CSD 13 reserved
    V(w); V(w);                                             // 14 edit list 15 cookie
#undef V
    if(ise >= 0) d.ref_(ise, w, 0, true); else d.v(0, w);
    d.v(nse, w);
    if(extra && extra < 0x100) d.b += img::pattern(extra, 2);
    const uint64_t aff = p64 ? v[10] : v[11], heap = p64 ? v[11] : v[10];
    const int id = l.add(d);
    const uint64_t stated[] = { 0x40, d.b.size(), 0x5c, 1 };
    if(!l.build(c, 10, c.pickdev(stated, "stated size"), id)) return;
    pe_base pe(open_pe(l.file));
    c.step();
    image_config_info g;
    try { g = get_image_config(pe); }
    catch(const pe_exception& e) { c.fail("config-refused", "a well-formed load configuration is refused: %s", e.what()); }
    const uint64_t r[16] = { g.get_time_stamp(), g.get_major_version(), g.get_minor_version(), g.get_global_flags_clear(), g.get_global_flags_set(), g.get_critical_section_default_timeout(), g.get_decommit_free_block_threshold(), g.get_decommit_total_free_threshold(),
        g.get_max_allocation_size(), g.get_virtual_memory_threshold(), aff, heap, g.get_service_pack_version(), v[13], g.get_edit_list_va(), g.get_security_cookie_va() };
    for(int i = 0; i < 16; ++i) { if(i == 10 || i == 11 || i == 13) continue; MC_REQUIRE(c, r[i] == v[i], "config-field", "field %d: %#llx read, %#llx stored", i, static_cast<unsigned long long>(r[i]), static_cast<unsigned long long>(v[i])); }
    MC_REQUIRE(c, g.get_process_affinity_mask() == aff && g.get_process_heap_flags() == heap, "config-field", "affinity %#llx heap flags %#x read, %#llx %#llx stored", static_cast<unsigned long long>(g.get_process_affinity_mask()), g.get_process_heap_flags(), static_cast<unsigned long long>(aff), static_cast<unsigned long long>(heap));
    MC_REQUIRE(c, g.get_se_handler_table_va() == (ise < 0 ? 0 : l.s.imagebase + l.at[ise]) && g.get_lock_prefix_table_va() == (ilp < 0 ? 0 : l.s.imagebase + l.at[ilp]) && g.get_se_handler_count() == static_cast<uint64_t>(nse), "config-tables", "the addresses of the tables read differ from the ones stored");
    MC_REQUIRE(c, g.get_se_handler_rvas() == se, "config-handlers", "%zu handlers read, %zu stored", g.get_se_handler_rvas().size(), se.size());
    MC_REQUIRE(c, g.get_lock_prefix_rvas() == lp, "config-prefixes", "%zu lock prefixes read, %zu stored", g.get_lock_prefix_rvas().size(), lp.size());
    c.outcome(mc::hash(l.file));
}

// ---------------------------------------------------------------- bound imports
static void bound(mc::Ctx& c)
{
    Lay l(c.flip("PE+"), place_of(c));
    static const uint32_t ts[] = { 0x4a000000, 0, 0xffffffffu };
    struct R { Bytes n; uint32_t t; };
    struct D { R r; std::vector<R> refs; };
    std::vector<D> want;
    const int n = 1 + count(c, 3, "modules");
    l.plain = big.on;
    size_t table = 8;
    for(int i = 0; i < n; ++i)
    {
        D d; d.r.n = name_of(libs[(i + c.dev(3, "name")) % 3], i % 9); d.r.t = c.pickdev(ts, "time");
        const int k = count2(c, mc::tier_pick(3, 4), "references");
        for(int j = 0; j < k; ++j) { R r = { name_of(libs[(i + j + c.dev(3, "reference name")) % 3], j % 11), big.on ? static_cast<uint32_t>(i * 1000 + j) : c.pickdev(ts, "time") }; d.refs.push_back(r); }
        table += 8 + 8 * d.refs.size();
        want.push_back(d);
    }
    if(table > 0xffff) return;                           // offsets have 16 bits
    // names follow the table: one each, or shared, in any of three orders; the directory covers all
    const bool shared = c.flip("shared names");
    const int ord = c.choose(2, "names in order / reversed");
    static const unsigned gapv[] = { 0, 1, 5 };
    const unsigned gap = c.pickdev(gapv, "gap");
    std::vector<Bytes*> all; std::vector<R*> rs;
    for(size_t i = 0; i < want.size(); ++i) { rs.push_back(&want[i].r); for(size_t k = 0; k < want[i].refs.size(); ++k) rs.push_back(&want[i].refs[k]); }
    std::vector<uint32_t> off(rs.size(), 0);
    Bytes names(gap, '\x41');
    if(gap) names[gap - 1] = 0;
    for(size_t q = 0; q < rs.size(); ++q)
    {
        const size_t i = ord ? rs.size() - 1 - q : q;
        if(shared) { bool done = false; for(size_t k = 0; k < rs.size() && !done; ++k) if(k != i && off[k] && rs[k]->n == rs[i]->n) { off[i] = off[k]; done = true; } if(done) continue; }
        off[i] = table + names.size();
        names += rs[i]->n; names.push_back(0);
    }
    if(table + names.size() > 0xffff) return;            // offsets have 16 bits
    Piece p(4);
    size_t at = 0;
    for(size_t i = 0; i < want.size(); ++i)
    {
        p.v(want[i].r.t, 4); p.v(off[at++], 2); p.v(want[i].refs.size(), 2);
        static const uint16_t res[] = { 0, 0xffff };
        for(size_t k = 0; k < want[i].refs.size(); ++k) { p.v(want[i].refs[k].t, 4); p.v(off[at++], 2); p.v(c.pickdev(res, "reserved"), 2); }
    }
    p.b += Bytes(8, 0);
    p.b += names;
    const int id = l.add(p);
    const uint64_t stated[] = { p.b.size(), table, 8, 1 };
    if(!l.build(c, 11, c.pickdev(stated, "stated size"), id)) return;
    pe_base pe(open_pe(l.file));
    c.step();
    bound_import_module_list got;
    try { got = get_bound_import_module_list(pe); }
    catch(const pe_exception& e) { c.fail("bound-refused", "well-formed bound imports of %zu modules are refused: %s", want.size(), e.what()); }
    MC_REQUIRE(c, got.size() == want.size(), "bound-count", "%zu modules read, %zu stored", got.size(), want.size());
    for(size_t i = 0; i < got.size(); ++i)
    {
        const bound_import::ref_list& r = got[i].get_module_ref_list();
        MC_REQUIRE(c, got[i].get_module_name() == want[i].r.n && got[i].get_timestamp() == want[i].r.t && r.size() == want[i].refs.size(), "bound-module", "module %zu: '%s' with %zu references read, '%s' with %zu stored", i, got[i].get_module_name().c_str(), r.size(), want[i].r.n.c_str(), want[i].refs.size());
        for(size_t k = 0; k < r.size(); ++k) MC_REQUIRE(c, r[k].get_module_name() == want[i].refs[k].n && r[k].get_timestamp() == want[i].refs[k].t, "bound-reference", "module %zu reference %zu: '%s' read, '%s' stored", i, k, r[k].get_module_name().c_str(), want[i].refs[k].n.c_str());
    }
    c.outcome(mc::hash(l.file));
}

// ---------------------------------------------------------------- exceptions
static void exceptions(mc::Ctx& c)
{
    Lay l(c.flip("PE+"), place_of(c));
    struct E { uint32_t b, e; int u; uint8_t ver, flags, prolog, codes, reg, off; };
    std::vector<E> want;
    Piece d(4);
    const int n = 1 + count(c, mc::tier_pick(2, 3), "functions");
    l.plain = big.on;
    static const uint8_t bytesv[] = { 0x05, 0, 0xff, 0x80 };
    const bool share = n > 1 && c.flip("shared unwind information");
    for(int i = 0; i < n; ++i)
    {
        E x;
        static const uint32_t len[] = { 0x10, 0, 0xfffffff };
        x.b = code_rva + 0x10 * i; x.e = x.b + c.pickdev(len, "length");
        if(share && i) { const uint32_t b = x.b, e = x.e; x = want[0]; x.b = b; x.e = e; }
        else
        {
            x.ver = static_cast<uint8_t>(1 + c.dev(2, "version") * 6); x.flags = static_cast<uint8_t>(sort_of(c, 5, i, "flags")); if(x.flags == 4 && c.devs_left()) { static const uint8_t fl[] = { 4, 7, 0x1f, 0x10 }; x.flags = c.pickdev(fl, "more flags"); }
            x.prolog = c.pickdev(bytesv, "prolog"); x.codes = static_cast<uint8_t>(big.on ? (i + big.k) & 255 : c.choose(3, "codes"));
            static const uint8_t rv[] = { 0, 5, 15 };
            x.reg = c.pickdev(rv, "register"); x.off = c.pickdev(rv, "offset");
            Piece p(4);
            p.v(x.ver | x.flags << 3, 1); p.v(x.prolog, 1); p.v(x.codes, 1); p.v(x.reg | x.off << 4, 1);
            for(int k = 0; k < ((x.codes + 1) & ~1); ++k) p.v(0x4200 + k, 2);
            x.u = l.add(p);
        }
        want.push_back(x);
        d.v(x.b, 4); d.v(x.e, 4); d.ref_(x.u);
    }
    uint32_t size = d.b.size();
    const int end = c.choose(3, "end: exact / null entry counted / null entry behind");
    if(end) d.b += Bytes(12, 0);
    if(end == 1) size += 12;
    const int id = l.add(d);
    if(!l.build(c, 3, size, id)) return;
    pe_base pe(open_pe(l.file));
    c.step();
    exception_entry_list got;
    try { got = get_exception_directory_data(pe); }
    catch(const pe_exception& e) { c.fail("exceptions-refused", "a well-formed exception directory of %zu functions is refused: %s", want.size(), e.what()); }
    MC_REQUIRE(c, got.size() == want.size(), "exceptions-count", "%zu functions read, %zu stored", got.size(), want.size());
    for(size_t i = 0; i < got.size(); ++i)
    {
        const E& x = want[i]; const exception_entry& g = got[i];
        MC_REQUIRE(c, g.get_begin_address() == x.b && g.get_end_address() == x.e && g.get_unwind_info_address() == l.at[x.u], "exception-entry", "function %zu: %#x-%#x, %#x read; %#x-%#x, %#x stored", i, g.get_begin_address(), g.get_end_address(), g.get_unwind_info_address(), x.b, x.e, l.at[x.u]);
        MC_REQUIRE(c, g.get_unwind_info_version() == x.ver && g.get_flags() == x.flags && g.get_size_of_prolog() == x.prolog && g.get_number_of_unwind_slots() == x.codes && g.get_frame_pointer_register_number() == x.reg && g.get_scaled_rsp_offset() == x.off,
            "unwind-info", "function %zu: version %u flags %#x prolog %u codes %u register %u offset %u read", i, g.get_unwind_info_version(), g.get_flags(), g.get_size_of_prolog(), g.get_number_of_unwind_slots(), g.get_frame_pointer_register_number(), g.get_scaled_rsp_offset());
        MC_REQUIRE(c, g.has_exception_handler() == ((x.flags & 1) != 0) && g.has_termination_handler() == ((x.flags & 2) != 0) && g.is_chaininfo() == ((x.flags & 4) != 0) && g.uses_frame_pointer() == (x.reg != 0), "unwind-flags", "function %zu: predicates do not agree with flags %#x register %u", i, x.flags, x.reg);
    }
    c.outcome(mc::hash(l.file));
}

// ---------------------------------------------------------------- .NET
static void dotnet(mc::Ctx& c)
{
    Lay l(c.flip("PE+"), place_of(c));
    static const uint32_t vals[] = { 0, 1, 0x12345678, 0xffffffffu };
    Piece d(4);
    d.v(72, 4);
    uint32_t v[18];
    v[0] = c.pickdev(vals, "field") & 0xffff; v[1] = c.pickdev(vals, "field") & 0xffff;
    d.v(v[0], 2); d.v(v[1], 2);
    for(int i = 2; i < 18; ++i)
    {
        if(i == 4) { static const uint32_t fl[] = { 0, 1, 2, 4, 8, 0x10, 0x10000, 0x1001f, 0xffffffffu }; v[i] = c.pick(fl, "flags"); }
        else v[i] = c.pickdev(vals, "field") ^ (i * 0x01010000u);
        d.v(v[i], 4);
    }
    const int id = l.add(d);
    if(!l.build(c, 14, 72, id)) return;
    pe_base pe(open_pe(l.file));
    c.step();
    basic_dotnet_info g;
    try { g = get_basic_dotnet_info(pe); }
    catch(const pe_exception& e) { c.fail("dotnet-refused", "a well-formed .NET header is refused: %s", e.what()); }
    const uint32_t r[18] = { g.get_major_runtime_version(), g.get_minor_runtime_version(), g.get_rva_of_metadata(), g.get_size_of_metadata(), g.get_flags(), g.get_entry_point_rva_or_token(), g.get_rva_of_resources(), g.get_size_of_resources(),
        g.get_rva_of_strong_name_signature(), g.get_size_of_strong_name_signature(), g.get_rva_of_code_manager_table(), g.get_size_of_code_manager_table(), g.get_rva_of_vtable_fixups(), g.get_size_of_vtable_fixups(),
        g.get_rva_of_export_address_table_jumps(), g.get_size_of_export_address_table_jumps(), g.get_rva_of_managed_native_header(), g.get_size_of_managed_native_header() };
    for(int i = 0; i < 18; ++i) MC_REQUIRE(c, r[i] == v[i], "dotnet-field", "field %d: %#x read, %#x stored", i, r[i], v[i]);
    MC_REQUIRE(c, g.is_il_only() == ((v[4] & 1) != 0) && g.is_32bit_required() == ((v[4] & 2) != 0) && g.is_il_library() == ((v[4] & 4) != 0) && g.is_native_entry_point() == ((v[4] & 0x10) != 0), "dotnet-flags", "predicates do not agree with flags %#x", v[4]);
    c.outcome(mc::hash(l.file));
}

// ---------------------------------------------------------------- no directory
static void absent(mc::Ctx& c)
{
    const bool p64 = c.flip("PE+");
    Spec s(p64);
    s.ndirs = c.choose(17, "directories");
    s.add(".text", img::pattern(0x40, 1));
    if(c.flip("size without address")) for(int i = 0; i < 16; ++i) s.dirs[i].size = 0x40;
    pe_base pe(open_pe(s.build()));
    c.step(10);
    export_info info;
    MC_REQUIRE(c, get_imported_functions(pe).empty() && get_exported_functions(pe).empty() && get_exported_functions(pe, info).empty() && get_relocations(pe).empty() && get_relocations(pe, true).empty()
        && get_bound_import_module_list(pe).empty() && get_exception_directory_data(pe).empty() && get_debug_information(pe).empty(), "absent", "entries are read from directories that do not exist");
    int refused = 0;
    try { get_tls_info(pe); } catch(const pe_exception&) { ++refused; }
    try { get_image_config(pe); } catch(const pe_exception&) { ++refused; }
    try { get_basic_dotnet_info(pe); } catch(const pe_exception&) { ++refused; }
    MC_REQUIRE(c, refused == 3, "absent", "information is read from directories that do not exist");
    c.outcome(s.ndirs);
}

// ---------------------------------------------------------------- large contents
static void sizes(mc::Ctx& c)
{
    static void (* const f[])(mc::Ctx&) = { imports, exports, relocs, tls, config, bound, exceptions };
    const int w = c.choose(7, "directory");
    std::vector<int> ns;
    for(int i = 0; i < mc::tier_pick(34, 300); i += i < 70 ? 1 : 3) ns.push_back(i);
    static const int more[] = { 64, 127, 128, 255, 256, 257, 1025, 4097, 63, 65, 129, 254, 511, 512, 513, 1023, 1024, 2047, 2048, 4095, 4096 };
    for(int i = 0; i < mc::tier_pick(8, 21); ++i) ns.push_back(more[i]);
    Big b = { true, 2, 2, 0, 0 };
    const int x = c.pick(ns, "size");
    switch(c.choose(4, "which: number / inner number / length of texts / all small")) { case 0: b.n = x; break; case 1: b.k = x; break; case 2: b.len = x; break; default: if(x > 40) return; b.n = b.k = x; b.len = x; }
    b.pat = x <= 40 ? c.choose(mc::tier_pick(2, 4), "pattern") : 1;
    big = b;
    try { f[w](c); } catch(...) { big.on = false; throw; }
    big.on = false;
}
// Contents past 16-bit counters and lengths of 64 KB
static void longer(mc::Ctx& c)
{
    static void (* const f[])(mc::Ctx&) = { imports, exports, relocs, tls, config, bound, exceptions };
    static const int ns[] = { 8000, 16384, 32767, 32768, 32769, 65534, 65535, 65536, 65537 };
    const int w = c.choose(7, "directory"), x = c.pick(ns, "size");
    Big b = { true, 2, 2, 0, 1 };
    // looking up the names of so many exported functions takes too long for enumeration
    switch(w == 1 ? 2 : c.choose(3, "which: number / inner number / length of texts")) { case 0: b.n = x; break; case 1: b.k = x; break; default: b.len = x; }
    big = b;
    one_place = true;
    try { f[w](c); } catch(...) { big.on = one_place = false; throw; }
    big.on = one_place = false;
}
namespace mc
{
const Part parts[] = {
    { "imports", imports, 1, 1, "import directories of up to 2 (thorough 3) libraries with up to 2 functions x table forms x places; outcome: every field compared" },
    { "exports", exports, 1, 1, "export directories of up to 2 (thorough 3) functions of 6 kinds x named or not x places; outcome: every field compared" },
    { "relocations", relocs, 2, 2, "up to 2 (thorough 3) blocks of up to 2 entries x places x endings; outcome: every entry compared" },
    { "tls", tls, 2, 3, "TLS directories x raw data forms x callbacks x places; outcome: every field compared" },
    { "config", config, 2, 3, "load configurations x handlers x lock prefixes x places; outcome: every field compared" },
    { "bound", bound, 1, 2, "up to 3 modules with up to 2 (thorough 3) references x shared names x places; outcome: every entry compared" },
    { "exceptions", exceptions, 1, 2, "up to 2 (thorough 3) functions x unwind forms x places x endings; outcome: every field compared" },
    { "dotnet", dotnet, 2, 3, ".NET headers with up to 2 (thorough 3) unusual fields x places; outcome: every field compared" },
    { "sizes", sizes, 0, 0, "imports, exports, relocations, TLS, load configuration, bound imports and exceptions with every number of entries, inner entries and text length up to 33 (thorough 300) and around powers of two to 4097, x places; outcome: everything compared" },
    { "long", longer, 0, 0, "the same with 16384 to 65537 entries, inner entries or characters; outcome: everything compared" },
    { "absent", absent, 0, 0, "images without the directories; outcome: empty lists or refusals" },
};
const int part_count = sizeof(parts) / sizeof(parts[0]);
}
