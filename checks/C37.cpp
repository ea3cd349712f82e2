// C37: output stream failures never corrupt the image.
#include "scen.h"
using namespace u;
const char* const mc::check_id = "C37";

// Accepts `limit` bytes, then fails: by refusing, or by throwing
struct Faulty : std::streambuf
{
    Bytes got; size_t limit; int mode; bool hit, once;
    Faulty(size_t l, int m) : limit(l), mode(m), hit(false), once(false) {}
    int_type overflow(int_type ch) override
    {
        if(got.size() >= limit && !(mode == 3 && hit)) { hit = true; if(mode == 1) throw std::runtime_error("device"); return traits_type::eof(); }
        if(ch != traits_type::eof()) got += static_cast<char>(ch);
        return traits_type::not_eof(ch);
    }
    std::streamsize xsputn(const char* p, std::streamsize n) override
    {
        if(mode == 3 && hit) { got.append(p, n); return n; }
        const size_t room = limit > got.size() ? limit - got.size() : 0;
        if(static_cast<size_t>(n) <= room) { got.append(p, n); return n; }
        hit = true;
        if(mode != 2) got.append(p, room);      // mode 2: a block write that fails writes nothing of the block
        if(mode == 1) throw std::runtime_error("device");
        return mode == 2 ? 0 : static_cast<std::streamsize>(room);
    }
    pos_type seekoff(off_type, std::ios_base::seekdir, std::ios_base::openmode) override { return pos_type(static_cast<off_type>(got.size())); }
};
static void inject(mc::Ctx& c)
{
    const int n = c.choose(scen::sources, "source");
    const bool pe64 = c.flip("flavour");
    std::unique_ptr<pe_base> p = scen::source(n, pe64);
    c.desc("%s source %d", pe64 ? "PE+" : "PE", n);
    const scen::Opt o = scen::options(c);
    const pe_base untouched(*p);
    pe_base good(*p);
    const Bytes ref_file = write_pe(good, o.strip, o.chg, o.bound);
    const Bytes fp = fingerprint(good);
    // every byte position in the headers and around every change of content; thorough: every byte position
    std::vector<size_t> at;
    for(size_t k = 0; k <= ref_file.size(); ++k)
    {
        bool edge = k < 2 || k == ref_file.size() || k == ref_file.size() - 1 || (k < 0x400 && k % 4 == 0) || k % 0x80 == 0 || k % 0x80 == 1 || k % 0x80 == 0x7f;
        if(edge || mc::thorough()) at.push_back(k);
    }
    const size_t limit = at[c.choose(static_cast<int>(at.size()), "failure position")];
    const int mode = c.choose(4, "failure mode");
    c.desc(" fails at byte %zu mode %d", limit, mode);
    Faulty b(limit, mode);
    std::ostream os(&b);
    const int mask = mode == 1 ? c.choose(2, "exception mask") : 0;
    if(mask) os.exceptions(std::ios::badbit);
    bool threw = false;
    try { rebuild_pe(*p, os, o.strip, o.chg, o.bound); }
    catch(const std::exception&) { threw = true; }
    c.step();
    if(!b.hit)
        MC_REQUIRE(c, !threw && os.good() && b.got == ref_file, "no-failure", "the stream took every byte, but the file differs or a failure was reported");
    else
    {
        MC_REQUIRE(c, threw || os.bad() || os.fail(), "unreported", "the stream failed at byte %zu, nothing reports it", limit);
        if(mode != 3) MC_REQUIRE(c, b.got == ref_file.substr(0, b.got.size()), "prefix", "bytes written before the failure are not the beginning of the file");
    }
    // writing again to a good stream, and to the same stream, gives the same file
    pe_base copy(*p);
    const Bytes again = write_pe(*p, o.strip, o.chg, o.bound);
    MC_REQUIRE(c, again == ref_file, "retry", "writing again after a failure at byte %zu gives a different file", limit);
    MC_REQUIRE(c, fingerprint(*p) == fp, "memory", "image in memory differs from one that was written without failure");
    MC_REQUIRE(c, write_pe(copy, o.strip, o.chg, o.bound) == ref_file, "copy", "a copy taken after the failure writes a different file");
    const section_list &l0 = untouched.get_image_sections(), &l1 = static_cast<const pe_base&>(*p).get_image_sections();
    for(size_t i = 0; i < l0.size(); ++i) MC_REQUIRE(c, l0[i].get_raw_data() == l1[i].get_raw_data(), "sections", "section data changed by writing");
    // a stream that is bad already is refused and nothing changes
    const Bytes before = fingerprint(copy);
    std::ostringstream dead; dead.setstate(std::ios::badbit);
    bool refused = false;
    try { rebuild_pe(copy, dead, o.strip, o.chg, o.bound); } catch(const pe_exception& e) { refused = e.get_id() == pe_exception::stream_is_bad; }
    MC_REQUIRE(c, refused && dead.str().empty() && fingerprint(copy) == before, "bad-stream", "writing to a bad stream");
    // whoever retries on the stream that failed gets the refusal too, not a success
    if(os.bad())
    {
        refused = false;
        try { rebuild_pe(copy, os, o.strip, o.chg, o.bound); } catch(const std::exception&) { refused = true; }
        MC_REQUIRE(c, refused, "failed-stream", "writing to the failed stream again reported nothing");
    }
    c.outcome(mc::hash(b.got, limit * 16 + n));
    c.state(mc::mix(mc::hash(b.got), mode));
}
// Images that were edited, then written with a failure, then edited again and written
static void edit_between(mc::Ctx& c)
{
    const int n = c.choose(scen::sources, "source"), e1 = c.choose(scen::edits, "edit"), e2 = c.choose(scen::edits, "second edit");
    const bool pe64 = c.flip("flavour");
    std::unique_ptr<pe_base> p = scen::source(n, pe64);
    c.desc("%s source %d %s, failed write, %s", pe64 ? "PE+" : "PE", n, scen::edit_name(e1), scen::edit_name(e2));
    if(!scen::edit(*p, e1)) return;
    const scen::Opt o = { false, true, true };
    pe_base good(*p);
    Bytes f;
    try { f = write_pe(good, o.strip, o.chg, o.bound); } catch(const pe_exception&) { return; }
    static const size_t at[] = { 0, 1, 64, 0x90, 0x1ff, 0x200, 0x3ff, 0x401, 0x600 };
    const size_t limit = c.pick(at, "failure position");
    c.desc(" at %zu", limit);
    Faulty b(limit, 0);
    std::ostream os(&b);
    rebuild_pe(*p, os, o.strip, o.chg, o.bound);
    c.step();
    MC_REQUIRE(c, b.hit == (limit < f.size()) && os.good() == !b.hit, "state", "stream state does not tell the failure");
    const bool ea = scen::edit(*p, e2), eb = scen::edit(good, e2);
    MC_REQUIRE(c, ea == eb, "edit", "edit after a failed write behaves differently");
    Bytes w1, w2;
    int x1 = 0, x2 = 0;
    try { w1 = write_pe(*p); } catch(const pe_exception& e) { x1 = 1 + e.get_id(); }
    try { w2 = write_pe(good); } catch(const pe_exception& e) { x2 = 1 + e.get_id(); }
    MC_REQUIRE(c, w1 == w2 && x1 == x2, "retry", "file written after a failed write and an edit differs");
    MC_REQUIRE(c, fingerprint(*p) == fingerprint(good), "memory", "image after a failed write and an edit differs");
    c.outcome(mc::hash(w1, limit));
    c.state(mc::mix(mc::hash(w1), limit));
}
namespace mc
{
const Part parts[] = {
    { "every-position", inject, 0, 0, "16 sources x 2 flavours x 8 write options x failure positions (thorough: every byte) x 4 failure modes (refuse, throw with and without the caller's mask, whole-block, transient); an outcome is the prefix the stream took" },
    { "edit-between", edit_between, 0, 0, "source x edit x failure at 9 positions x second edit, compared with the same history without the failure" },
};
const int part_count = sizeof(parts) / sizeof(parts[0]);
}
