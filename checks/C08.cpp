// C08: the raw and the virtual view of a section stay coherent.
#include "util.h"
#include "images.h"
using namespace u;
const char* const mc::check_id = "C08";

struct Model
{
    Bytes raw; uint32_t vsize, rawsize;
    uint64_t aligned(uint32_t a) const { return ref::up(vsize ? vsize : rawsize, a); }
    Bytes virt(uint32_t a) const { Bytes v = raw; if(v.size() < aligned(a)) v.resize(aligned(a), 0); return v; }
    uint64_t h() const { return mc::mix(mc::hash(raw), mc::mix(vsize, rawsize)); }
};
static void compare_raw(mc::Ctx& c, const section& s, const Model& m)
{
    MC_REQUIRE(c, s.get_raw_data() == m.raw, "raw-view", "raw view is %s, should be %s", mc::hex(s.get_raw_data(), 40).c_str(), mc::hex(m.raw, 40).c_str());
}
static void compare_virtual(mc::Ctx& c, const section& s, const Model& m, uint32_t a)
{
    const Bytes v = m.virt(a);
    MC_REQUIRE(c, s.get_virtual_data(a) == v, "virtual-view", "virtual view (alignment %#x) is %zu bytes %s, should be %zu bytes %s", a, s.get_virtual_data(a).size(), mc::hex(s.get_virtual_data(a), 24).c_str(), v.size(), mc::hex(v, 24).c_str());
}
static void compare_flags(mc::Ctx& c, const section& s, const Model& m)
{
    MC_REQUIRE(c, s.empty() == m.raw.empty(), "empty-flag", "empty() says %d with %zu raw bytes", s.empty(), m.raw.size());
    MC_REQUIRE(c, s.get_virtual_size() == m.vsize && s.get_size_of_raw_data() == m.rawsize, "sizes", "header sizes changed");
}

static void histories(mc::Ctx& c)
{
    static const uint32_t aligns[] = { 8, 16, 1 };
    const uint32_t al = aligns[c.choose(2, "alignment")];
    section s[2];
    Model m[2];
    s[0].set_name("a"); s[1].set_name("b");
    m[0].vsize = m[1].vsize = 0; m[0].rawsize = m[1].rawsize = 0;
    const int init = c.choose(3, "initial data");
    for(int k = 0; k < 2; ++k)
    {
        m[k].raw = init == 0 ? Bytes() : init == 1 ? Bytes("abc") : img::pattern(20, k + 1);
        s[k].set_raw_data(m[k].raw);
        m[k].vsize = 5; s[k].set_virtual_size(5);
        m[k].rawsize = static_cast<uint32_t>(m[k].raw.size()); s[k].set_size_of_raw_data(m[k].rawsize);
    }
    const int depth = mc::tier_pick(5, 6);
    for(int step = 0; step < depth; ++step)
    {
        const int op = c.choose(15, "operation");
        section& x = s[0]; Model& y = m[0];
        const section& cx = x;
        switch(op)
        {
        case 0: c.desc(" raw"); compare_raw(c, cx, y); break;
        case 1: c.desc(" virt"); compare_virtual(c, cx, y, al); break;
        case 2: c.desc(" virt16"); compare_virtual(c, cx, y, al * 2); break;
        case 3: c.desc(" wraw"); { std::string& r = x.get_raw_data(); if(!r.empty()) { r[r.size() - 1] = 'R'; y.raw[y.raw.size() - 1] = 'R'; } } break;
        case 4: c.desc(" wvirt"); { std::string& r = x.get_virtual_data(al); if(!y.raw.empty()) { r[y.raw.size() - 1] = 'V'; r[0] = 'v'; y.raw[y.raw.size() - 1] = 'V'; y.raw[0] = 'v'; } } break;
        case 5: c.desc(" wpad"); { std::string& r = x.get_virtual_data(al); if(r.size() > y.raw.size()) r[y.raw.size()] = 'P'; compare_raw(c, cx, y); } break;
        case 6: c.desc(" grow"); x.get_raw_data().resize(y.raw.size() + 6, 'g'); y.raw.resize(y.raw.size() + 6, 'g'); break;
        case 7: c.desc(" shrink"); { const size_t n = y.raw.size() / 2; x.get_raw_data().resize(n); y.raw.resize(n); } break;
        case 8: c.desc(" set"); x.set_raw_data("wxyz"); y.raw = "wxyz"; break;
        case 9: c.desc(" clear"); x.set_raw_data(""); y.raw.clear(); break;
        case 10: c.desc(" vs0"); x.set_virtual_size(0); y.vsize = 0; break;
        case 11: c.desc(" vs33"); x.set_virtual_size(33); y.vsize = 33; break;
        case 12: c.desc(" rs"); x.set_size_of_raw_data(12); y.rawsize = 12; break;
        case 13: c.desc(" copy"); s[1] = s[0]; m[1] = m[0]; std::swap(s[0], s[1]); std::swap(m[0], m[1]); break;
        case 14: c.desc(" own"); { const Bytes v = y.virt(al); x.set_raw_data(x.get_virtual_data(al)); y.raw = v; } break;
        }
        c.step();
        c.state(mc::mix(y.h(), al));
        compare_flags(c, s[0], m[0]);
        compare_flags(c, s[1], m[1]);
    }
    // final comparison in both orders, and on a copy taken while either view is current
    const int last = c.choose(2, "order");
    for(int k = 0; k < 2; ++k)
    {
        section copy1(s[k]);
        if(last) { compare_virtual(c, s[k], m[k], al); section copy2(s[k]); compare_raw(c, copy2, m[k]); compare_virtual(c, copy2, m[k], al); compare_raw(c, s[k], m[k]); }
        else { compare_raw(c, s[k], m[k]); compare_virtual(c, s[k], m[k], al); section copy2; copy2 = s[k]; compare_virtual(c, copy2, m[k], al); compare_raw(c, copy2, m[k]); }
        compare_raw(c, copy1, m[k]);
        compare_virtual(c, copy1, m[k], al);
    }
    c.outcome(mc::mix(m[0].h(), m[1].h()));
    c.trace();
}

// The same inside an image: views are switched by address lookups, writes and rebuilding
static void in_image(mc::Ctx& c)
{
    pe_base pe(fresh(c.flip("flavour"), 0x1000));
    Bytes d[2] = { img::pattern(0x30, 1), img::pattern(0x250, 2) };
    for(int i = 0; i < 2; ++i) { section t; t.set_name("s"); t.set_raw_data(d[i]); t.set_virtual_size(i ? 0x1800 : 0x100); pe.add_section(t); }
    const int depth = mc::tier_pick(4, 5);
    for(int step = 0; step < depth; ++step)
    {
        const int op = c.choose(8, "operation"), k = c.choose(2, "section");
        section_list& l = pe.get_image_sections();
        const uint32_t va = l[k].get_virtual_address();
        const pe_base& cp = pe;
        c.desc(" %d/%d", op, k);
        switch(op)
        {
        case 0: MC_REQUIRE(c, cp.section_data_from_rva(va + 0x20, section_data_virtual)[0] == d[k][0x20], "lookup-virtual", "wrong byte"); break;
        case 1: MC_REQUIRE(c, cp.section_data_from_rva(va + 0x20, section_data_raw)[0] == d[k][0x20], "lookup-raw", "wrong byte"); break;
        case 2: pe.section_data_from_rva(va + 0x10)[0] = 'w'; d[k][0x10] = 'w'; break;
        case 3: { pe_base q(pe); MC_REQUIRE(c, q.get_image_sections()[k].get_raw_data() == d[k], "copy", "copy differs"); break; }
        case 4: MC_REQUIRE(c, cp.section_data_length_from_rva(va, section_data_raw) == d[k].size() && cp.section_data_length_from_rva(va, section_data_virtual) == l[k].get_aligned_virtual_size(0x1000), "length", "wrong length"); break;
        case 5: { const Bytes f = write_pe(pe); ref::Img i = ref::Img::parse(f); MC_REQUIRE(c, same_content(i.h.secs[k].data, d[k]), "written", "written data differs"); break; }
        case 6: MC_REQUIRE(c, cp.section_data_from_rva<uint32_t>(va + 0x1000 - 4, section_data_virtual) == 0, "padding", "padding is not zero"); break;
        case 7: l[k].get_virtual_data(0x1000)[0x28] = 'z'; d[k][0x28] = 'z'; break;
        }
        c.step();
        c.state(mc::mix(mc::hash(d[0]), mc::hash(d[1])));
    }
    for(int i = 0; i < 2; ++i) MC_REQUIRE(c, same_content(pe.get_image_sections()[i].get_raw_data(), d[i]), "raw-view", "raw data of section %d differs at the end", i);
    c.outcome(mc::mix(mc::hash(d[0]), mc::hash(d[1])));
    c.trace();
}
namespace mc
{
const Part parts[] = {
    { "view-histories", histories, 0, 0, "all sequences of 5 (6) of 15 operations on a section (views, writes through either view, padding writes, resizes, replacements, size changes, copies) from 3 initial contents and 2 alignments; a state is the model's data and sizes" },
    { "image-histories", in_image, 0, 0, "all sequences of 4 (5) of 8 operations on either of two sections inside an image" },
};
const int part_count = sizeof(parts) / sizeof(parts[0]);
}
