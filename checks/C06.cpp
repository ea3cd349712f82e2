// C06: written files are well formed and contain only image data.
#include "scen.h"
using namespace u;
const char* const mc::check_id = "C06";

// Parses and checks a written file against the image it was written from
static void check_file(mc::Ctx& c, const Bytes& f, const pe_base& pe, const scen::Opt& o, uint32_t hdrsize0, bool inhdr, const Bytes& bound, const std::vector<Bytes>& data)
{
    ref::Img i;
    try { i = ref::Img::parse(f); }
    catch(const ref::Err& e) { c.fail("parse", "written file: %s", e.what.c_str()); }
    const uint64_t stub = o.strip ? 0 : ref::up(pe.get_stub_overlay().size(), 4);
    const bool moved = o.bound && inhdr;
    uint64_t bound_at = 0;
    const uint64_t end = scen::header_end(pe, o, moved, &bound_at);
    const uint32_t fa = i.h.filealign;
    MC_REQUIRE(c, i.h.lfanew == (o.strip ? 16u : 64u + stub), "lfanew", "PE header at %#x", i.h.lfanew);
    MC_REQUIRE(c, i.h.secs.size() == data.size(), "section-count", "%zu sections in the file, %zu in the image", i.h.secs.size(), data.size());
    MC_REQUIRE(c, o.chg ? i.h.hdrsize == ref::up(end, fa) : i.h.hdrsize == hdrsize0, "header-size", "SizeOfHeaders %#x, headers end at %#llx", i.h.hdrsize, static_cast<unsigned long long>(end));
    uint64_t img = i.h.hdrsize;
    if(!i.h.secs.empty()) { const ref::Sec& s = i.h.secs.back(); img = s.va + ref::up(s.vsize ? s.vsize : s.rawsize, i.h.secalign); }
    MC_REQUIRE(c, i.h.imagesize == img, "image-size", "SizeOfImage %#x, sections end at %#llx", i.h.imagesize, static_cast<unsigned long long>(img));
    Bytes used(f.size(), 0);            // bytes explained by the image
    for(uint64_t k = 0; k < end && k < f.size(); ++k) used[k] = 1;
    MC_REQUIRE(c, f.size() >= end, "short", "file of %zu bytes, headers end at %#llx", f.size(), static_cast<unsigned long long>(end));
    if(!o.strip && stub)
        for(uint64_t k = 64 + pe.get_stub_overlay().size(); k < 64 + stub; ++k) used[k] = 0;
    uint64_t pos = ref::up(end, fa), last = end;
    for(size_t k = 0; k < i.h.secs.size(); ++k)
    {
        const ref::Sec& s = i.h.secs[k];
        if(!s.rawsize) continue;
        MC_REQUIRE(c, s.rawptr % fa == 0 && s.rawptr >= pos, "placement", "section %zu at %#x, expected at or behind %#llx, aligned to %#x", k, s.rawptr, static_cast<unsigned long long>(pos), fa);
        MC_REQUIRE(c, s.rawptr == pos, "gap", "section %zu at %#x leaves a gap behind %#llx", k, s.rawptr, static_cast<unsigned long long>(pos));
        MC_REQUIRE(c, same_content(s.data, data[k].substr(0, s.rawsize)), "data", "section %zu: data in the file differs", k);
        pos = ref::up(static_cast<uint64_t>(s.rawptr) + s.rawsize, fa);
        last = static_cast<uint64_t>(s.rawptr) + s.rawsize;
        for(uint64_t j = s.rawptr; j < last; ++j) used[j] = 1;
    }
    MC_REQUIRE(c, f.size() >= last && f.size() <= pos, "file-size", "file of %zu bytes, data ends at %#llx", f.size(), static_cast<unsigned long long>(last));
    for(size_t k = 0; k < f.size(); ++k)
        MC_REQUIRE(c, used[k] || !f[k], "foreign-bytes", "byte %#zx is %#x and belongs to nothing", k, static_cast<unsigned char>(f[k]));
    if(moved)
    {
        MC_REQUIRE(c, i.h.dirs[11].rva == bound_at && i.h.dirs[11].size == bound.size(), "bound-directory", "bound import directory at %#x+%#x, expected %#llx+%#zx", i.h.dirs[11].rva, i.h.dirs[11].size, static_cast<unsigned long long>(bound_at), bound.size());
        MC_REQUIRE(c, f.substr(bound_at, bound.size()) == bound, "bound-data", "bound imports in the headers differ");
    }
}
struct NoSeek : std::stringbuf
{
    NoSeek() : std::stringbuf(std::ios::out | std::ios::binary) {}
    pos_type seekoff(off_type, std::ios_base::seekdir, std::ios_base::openmode) override { return pos_type(off_type(-1)); }
    pos_type seekpos(pos_type, std::ios_base::openmode) override { return pos_type(off_type(-1)); }
};
static void write_all(mc::Ctx& c, std::unique_ptr<pe_base> p)
{
    const scen::Opt o = scen::options(c);
    pe_base& pe = *p;
    const bool inhdr = scen::bound_in_headers(pe);
    const Bytes bound = inhdr ? pe.get_full_headers_data().substr(pe.get_directory_rva(11), pe.get_directory_size(11)) : Bytes();
    const uint32_t hdrsize0 = pe.get_size_of_headers();
    std::vector<Bytes> data;
    const section_list& l = static_cast<const pe_base&>(pe).get_image_sections();
    for(size_t i = 0; i < l.size(); ++i) data.push_back(l[i].get_raw_data());
    Bytes f;
    try { f = write_pe(pe, o.strip, o.chg, o.bound); }
    catch(const pe_exception& e)
    {
        const uint64_t end = ref::up(scen::header_end(pe, o, o.bound && inhdr), pe.get_file_alignment());
        MC_REQUIRE(c, o.chg && !l.empty() && end > l[0].get_virtual_address() && e.get_id() == pe_exception::cannot_rebuild_image, "refused", "writing was refused: %s", e.what());
        return;
    }
    check_file(c, f, pe, o, hdrsize0, inhdr, bound, data);
    c.step();
    // written again from the same object, to a stream that cannot seek, and behind other bytes
    {
        NoSeek b; std::ostream os(&b);
        rebuild_pe(pe, os, o.strip, o.chg, o.bound);
        MC_REQUIRE(c, b.str() == f, "second-write", "second write of the same image differs (%zu bytes, %zu bytes)", f.size(), b.str().size());
        std::ostringstream os2; os2 << "prefix!";
        rebuild_pe(pe, os2, o.strip, o.chg, o.bound);
        MC_REQUIRE(c, os2.str() == "prefix!" + f, "offset-write", "writing behind other bytes gives a different file");
    }
    // a caller who keeps a size of headers that is too small puts the bound imports outside of them
    if(!o.chg && o.bound && inhdr && scen::header_end(pe, o, true) > hdrsize0) { c.outcome(1); return; }
    // reopened and written with the same options
    pe_base q(open_pe(f));
    Bytes g;
    try { g = write_pe(q, o.strip, o.chg, o.bound); }
    catch(const std::exception& e) { c.fail("rewrite-refused", "writing the reopened file: %s", e.what()); }
    MC_REQUIRE(c, g == f, "rewrite", "writing the reopened file gives different bytes (%zu, %zu)", f.size(), g.size());
    c.outcome(mc::hash(f));
    c.state(mc::hash(f));
    c.trace();
}
static void edited(mc::Ctx& c) { write_all(c, scen::make(c, mc::tier_pick(2, 3))); }
// Headers that end near a boundary
static void near(mc::Ctx& c) { write_all(c, scen::near(c)); }
// Up to the limit of sections
static void many(mc::Ctx& c) { write_all(c, scen::many(c, 96)); }

// Sequences of writes with different options from one object
static void sequences(mc::Ctx& c)
{
    std::unique_ptr<pe_base> p = scen::make(c, mc::tier_pick(0, 1));
    pe_base& pe = *p;
    const Bytes bound0 = scen::bound_in_headers(pe) ? pe.get_full_headers_data().substr(pe.get_directory_rva(11), pe.get_directory_size(11)) : Bytes();
    const section_list& l = static_cast<const pe_base&>(pe).get_image_sections();
    std::vector<Bytes> data;
    for(size_t i = 0; i < l.size(); ++i) data.push_back(l[i].get_raw_data());
    for(int k = 0; k < 3; ++k)
    {
        const scen::Opt o = scen::options(c);
        const bool inhdr = scen::bound_in_headers(pe);
        MC_REQUIRE(c, !inhdr || pe.get_full_headers_data().substr(pe.get_directory_rva(11), pe.get_directory_size(11)) == bound0, "bound-moved", "bound import position in memory no longer names the bound imports");
        const uint32_t hdrsize0 = pe.get_size_of_headers();
        Bytes f;
        try { f = write_pe(pe, o.strip, o.chg, o.bound); }
        catch(const pe_exception&) { return; }
        check_file(c, f, pe, o, hdrsize0, inhdr, bound0, data);
        c.step();
        c.state(mc::hash(f));
    }
    c.outcome(mc::hash(fingerprint(pe)));
    c.trace();
}
namespace mc
{
const Part parts[] = {
    { "write", edited, 0, 0, "16 sources x 2 flavours x up to 2 (3) of 24 edits x 8 write options; each file is parsed independently and every byte attributed; written again, unseekable, at an offset, and after reopening" },
    { "header-ends", near, 0, 0, "5 sources x 2 flavours x 4 alignments x header ends within 9 bytes of 4 boundaries (one and two file alignments, the first section and one unit behind it) by the length of the stub, x 8 write options" },
    { "many-sections", many, 0, 0, "0 to 96 sections x 2 flavours x 2 (3) alignments x 2 (4) patterns of sizes, from a file or added, x 8 write options" },
    { "write-sequences", sequences, 0, 0, "every sequence of 3 writes with any of the 8 options from one image object (thorough: after one edit)" },
};
const int part_count = sizeof(parts) / sizeof(parts[0]);
}
