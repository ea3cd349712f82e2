// C04: reading leaves the caller's stream as it was, and stream failures never yield a result.
#include "util.h"
#include "images.h"
#include <cmath>
using namespace u;

const char* const mc::check_id = "C04";

// A stream over a byte string that counts its operations and fails one (or all from one on)
struct FaultBuf : std::streambuf
{
    Bytes d;
    int64_t pos = 0;
    int ops = 0, at = -1, kind = 0;         // kind: 0 fails, 1 half of it, 2 throws, 3 this and all later ones fail
    bool hit = false, hit_tell = false, hit_seek = false;
    int64_t hit_target = -1;
    int ops_after = 0;
    bool fault(bool tell, bool seek, int64_t target)
    {
        const int n = ops++;
        if(at < 0) return false;
        if(n == at || (kind == 3 && n > at))
        {
            hit = true; hit_tell = tell; hit_seek = seek; hit_target = target; ops_after = 0;
            if(kind == 2) throw std::runtime_error("injected stream failure");
            return true;
        }
        if(n > at) ++ops_after;
        return false;
    }
    std::streamsize xsgetn(char* p, std::streamsize n) override
    {
        std::streamsize k = std::max<int64_t>(0, std::min<int64_t>(n, static_cast<int64_t>(d.size()) - pos));
        if(n > 0 && fault(false, false, -1)) k = kind == 1 ? k / 2 : 0;
        memcpy(p, d.data() + pos, k);
        pos += k;
        return k;
    }
    int_type underflow() override
    {
        if(fault(false, false, -1) || pos >= static_cast<int64_t>(d.size())) return traits_type::eof();
        return static_cast<unsigned char>(d[pos]);
    }
    int_type uflow() override
    {
        if(fault(false, false, -1) || pos >= static_cast<int64_t>(d.size())) return traits_type::eof();
        return static_cast<unsigned char>(d[pos++]);
    }
    pos_type seekoff(off_type o, std::ios_base::seekdir w, std::ios_base::openmode) override
    {
        const bool tell = o == 0 && w == std::ios_base::cur;
        const int64_t t = (w == std::ios_base::beg ? 0 : w == std::ios_base::cur ? pos : static_cast<int64_t>(d.size())) + o;
        if(fault(tell, !tell, t)) return pos_type(off_type(-1));
        if(t < 0 || t > static_cast<int64_t>(d.size())) return pos_type(off_type(-1));
        pos = t;
        return pos_type(off_type(t));
    }
    pos_type seekpos(pos_type p, std::ios_base::openmode m) override { return seekoff(off_type(p), std::ios_base::beg, m); }
};

enum Op { open_auto, open_32, open_64, open_nodbg, open_mem, type, checksum, entropy, n_ops };
static const char* op_names[] = { "open", "open as PE32", "open as PE64", "open without debug data", "open memory dump", "type detection", "checksum", "entropy" };

struct Result { bool ok; Bytes value; Result() : ok(false) {} };
static Bytes image_value(const pe_base& pe, bool debug)
{
    Bytes b = fingerprint(pe);
    if(!debug) for(pe_base::debug_data_list::const_iterator i = pe.get_raw_debug_data_list().begin(); i != pe.get_raw_debug_data_list().end(); ++i) b.resize(b.size() - 4 - i->second.size());
    return b;
}
static Result run(std::istream& is, int op, bool debug)
{
    Result r;
    try
    {
        switch(op)
        {
        case open_auto: r.value = image_value(pe_factory::create_pe(is), debug); break;
        case open_32: r.value = image_value(pe_base(is, pe_properties_32(), false), debug); break;
        case open_64: r.value = image_value(pe_base(is, pe_properties_64(), false), debug); break;
        case open_nodbg: r.value = image_value(pe_factory::create_pe(is, false, false), debug); break;
        case open_mem: r.value = image_value(pe_factory::create_pe(is, true, true), debug); break;
        case type: r.value = Bytes(1, static_cast<char>(pe_base::get_pe_type(is))); break;
        case checksum: ref::app32(r.value, calculate_checksum(is)); break;
        case entropy: { const double e = entropy_calculator::calculate_entropy(is); r.value.assign(reinterpret_cast<const char*>(&e), sizeof(e)); break; }
        }
        r.ok = true;
    }
    catch(const std::exception&) { r.value.clear(); }
    return r;
}

static Bytes content(int k)
{
    static Bytes cache[16];
    if(!cache[k].empty()) return cache[k];
    Bytes f;
    switch(k)
    {
    case 0: f = img::base(img::k_one, false).build(); break;
    case 1: f = img::base(img::k_debug, true).build(); break;
    case 2: f = img::base(img::k_zero, false).build(); break;
    case 3: f = img::base(img::k_tiny, true).build(); break;
    case 4: f = "MZ"; f.resize(64, 0); break;                        // a DOS header only
    case 5: f = "MZ"; f.resize(64, 0); ref::put32(f, 60, 0x40); f += "PE"; f.resize(75, 1); break;
    case 6: f = img::base(img::k_debug, false).build(); ref::put32(f, 0x600 - 0x200 + 0x28 - 0x28 + 0x20 + 16, 0x100000); break;   // debug data reaching past the end
    case 7: f = "abc"; break;
    case 8: { ref::Spec s = img::base(img::k_plain, false); s.lfanew = 0x100; s.stub = s.headers().substr(0, 64); s.stub.resize(0xc0, 7); f = s.build(); ref::put32(f, 0x40 + 60, 0x100); break; } // a second DOS header at 0x40
    case 9: f = img::base(img::k_plain, true).build(); f.resize(f.size() - 0x10); break;   // truncated section
    case 10: { ref::Spec s = img::base(img::k_bss, true); f = s.build(); break; }
    }
    return cache[k] = f;
}
enum { n_content = 11 };

static const std::ios_base::iostate masks[] = {
    std::ios_base::goodbit, std::ios_base::badbit, std::ios_base::failbit, std::ios_base::eofbit, std::ios_base::failbit | std::ios_base::badbit,
    std::ios_base::eofbit | std::ios_base::badbit, std::ios_base::eofbit | std::ios_base::failbit, std::ios_base::eofbit | std::ios_base::failbit | std::ios_base::badbit };

static void faults(mc::Ctx& c)
{
    const int op = c.choose(n_ops, "operation");
    const int k = c.choose(n_content, "content");
    Bytes f = content(k);
    const int64_t n = static_cast<int64_t>(f.size());
    if(op == entropy && n > 80) f.resize(80), f[3] = 9;
    const int64_t starts[] = { 0, 0x40, 5, static_cast<int64_t>(f.size()), static_cast<int64_t>(f.size()) - 1 };
    const int64_t start = std::min<int64_t>(c.pick(starts, "start"), f.size());
    const int mask = c.choose(8, "exception mask");
    // how many operations does it take without a fault?
    FaultBuf b0; b0.d = f; b0.pos = start;
    int total;
    Result base, base_nodebug;
    {
        std::istream is(&b0);
        base = run(is, op, true);
        total = b0.ops;
        b0.pos = start; is.clear();
        base_nodebug = run(is, op, false);
    }
    const int kind = c.choose(5, "fault kind");
    FaultBuf b; b.d = f; b.pos = start;
    if(kind) { b.kind = kind - 1; b.at = c.choose(total, "failing operation"); }
    c.desc("%s on content %d (%zu bytes) from %lld, mask %d, fault %d at operation %d of %d", op_names[op], k, f.size(), static_cast<long long>(start), static_cast<int>(masks[mask]), kind, b.at, total);
    std::istream is(&b);
    is.exceptions(masks[mask]);
    const Result r = run(is, op, !kind);
    // the mask
    MC_REQUIRE(c, is.exceptions() == masks[mask], "exception-mask", "the exception mask is %d afterwards", static_cast<int>(is.exceptions()));
    // the position; a stream that cannot tell or cannot seek back cannot be restored
    const bool excused = b.hit && (kind == 4 || b.hit_tell || (b.hit_seek && b.hit_target == start));
    if(!excused) MC_REQUIRE(c, b.pos == start, "position", "the position is %lld afterwards (call %s)", static_cast<long long>(b.pos), r.ok ? "succeeded" : "failed");
    // the result
    if(!kind) MC_REQUIRE(c, r.ok == base.ok && r.value == base.value, "result-depends-on-mask", "result differs from the one without an exception mask");
    else if(r.ok) MC_REQUIRE(c, base.ok && r.value == base_nodebug.value, "invented-result", "succeeded with another result than the one without the failure");
    c.outcome(mc::mix(mc::hash(f), mc::mix(op * 8 + mask, mc::mix(start, mc::mix(kind, b.at)))) + r.ok);
}

// A stream already in a failed or exhausted state, or empty
static void bad_start(mc::Ctx& c)
{
    const int op = c.choose(n_ops, "operation");
    const int k = c.choose(n_content, "content");
    const int mask = c.choose(8, "exception mask");
    const int st = c.choose(7, "initial state") + 1;
    FaultBuf b; b.d = content(k); b.pos = c.flip("at the end") ? static_cast<int64_t>(b.d.size()) : 0;
    const int64_t start = b.pos;
    std::istream is(&b);
    is.clear(static_cast<std::ios_base::iostate>(st));
    bool threw = false;
    try { is.exceptions(masks[mask]); } catch(const std::ios_base::failure&) { threw = true; }
    (void)threw;
    c.desc("%s on content %d, initial state %d, mask %d", op_names[op], k, st, static_cast<int>(masks[mask]));
    const Result r = run(is, op, true);
    MC_REQUIRE(c, is.exceptions() == masks[mask], "exception-mask", "the exception mask is %d afterwards", static_cast<int>(is.exceptions()));
    MC_REQUIRE(c, b.pos == start, "position", "the position is %lld afterwards", static_cast<long long>(b.pos));
    MC_REQUIRE(c, !r.ok, "invented-result", "succeeded on a stream that was not good");
    c.outcome(mc::mix(op * 100 + k, mask * 8 + st) + start);
}

// Positions in files of several gigabytes
static void far_positions(mc::Ctx& c)
{
    static const uint64_t starts[] = { 0x7fffffff, 0x80000000u, 0xffffffffu, 0x100000000ull, 0x100000040ull, 0x8000000000000ull };
    const int op = c.choose(n_ops, "operation"), k = c.choose(n_content, "content"), mask = c.choose(8, "exception mask");
    if(op == checksum || op == entropy) { c.outcome(0); return; }       // read the whole file
    SparseBuf b; b.d = content(k);
    const uint64_t start = c.pick(starts, "start");
    b.pos = start; b.size = start + c.choose(2, "behind");
    std::istream is(&b);
    is.exceptions(masks[mask]);
    c.step();
    c.desc("%s on content %d from %llu, mask %d", op_names[op], k, static_cast<unsigned long long>(start), static_cast<int>(masks[mask]));
    const Result r = run(is, op, true);
    MC_REQUIRE(c, is.exceptions() == masks[mask], "exception-mask", "the exception mask is %d afterwards", static_cast<int>(is.exceptions()));
    MC_REQUIRE(c, b.pos == start, "position", "the position is %llu afterwards (call %s)", static_cast<unsigned long long>(b.pos), r.ok ? "succeeded" : "failed");
    c.outcome(mc::mix(op * 100 + k, mask) + r.ok);
}

namespace mc
{
const Part parts[] = {
    { "stream-faults", faults, 0, 0, "8 operations x 11 contents x 5 start positions x 8 exception masks x {no fault, every single stream operation failing, cut short, throwing, or failing for good}; every combination is a distinct case" },
    { "far-positions", far_positions, 0, 0, "6 operations x 11 contents x 8 exception masks with the stream 2 GB, 4 GB and more behind its beginning" },
    { "unusable-streams", bad_start, 0, 0, "8 operations x 11 contents x 8 exception masks x 7 initial error states x position" },
};
const int part_count = sizeof(parts) / sizeof(parts[0]);
}
