// C35: UCS-2 conversion is lossless or refused.
#include "util.h"
using namespace u;
const char* const mc::check_id = "C35";

static void one(mc::Ctx& c, const std::wstring& w)
{
    bool rep = true, surrogate = false;
    for(size_t i = 0; i < w.size(); ++i)
    {
        const uint32_t x = static_cast<uint32_t>(w[i]);
        if(x > 0xffff) rep = false;
        if(x >= 0xd800 && x <= 0xdfff) surrogate = true;
    }
    u16string s;
    bool ok = true;
    try { s = pe_utils::to_ucs2(w); } catch(const pe_exception&) { ok = false; }
    if(!rep) { MC_REQUIRE(c, !ok, "altered", "a string that does not fit was converted"); return; }
    if(!surrogate) MC_REQUIRE(c, ok, "refused", "a representable string was refused");
    if(!ok) return;
    MC_REQUIRE(c, s.size() == w.size(), "length", "%zu characters became %zu units", w.size(), s.size());
    for(size_t i = 0; i < w.size(); ++i) MC_REQUIRE(c, static_cast<uint16_t>(s[i]) == static_cast<uint32_t>(w[i]), "unit", "character %#x became %#x", static_cast<unsigned>(w[i]), static_cast<unsigned>(s[i]));
    std::wstring b;
    bool ok2 = true;
    try { b = pe_utils::from_ucs2(s); } catch(const pe_exception&) { ok2 = false; }
    if(!surrogate) MC_REQUIRE(c, ok2, "refused-back", "converting back was refused");
    if(ok2) MC_REQUIRE(c, b == w, "round-trip", "converting back gives another string of %zu characters", b.size());
}
static void back(mc::Ctx& c, const u16string& s)
{
    bool surrogate = false;
    for(size_t i = 0; i < s.size(); ++i) if(static_cast<uint16_t>(s[i]) >= 0xd800 && static_cast<uint16_t>(s[i]) <= 0xdfff) surrogate = true;
    std::wstring w;
    bool ok = true;
    try { w = pe_utils::from_ucs2(s); } catch(const pe_exception&) { ok = false; }
    if(!surrogate) MC_REQUIRE(c, ok, "refused", "units were refused");
    if(!ok) return;
    MC_REQUIRE(c, w.size() == s.size(), "length", "%zu units became %zu characters", s.size(), w.size());
    for(size_t i = 0; i < s.size(); ++i) MC_REQUIRE(c, static_cast<uint32_t>(w[i]) == static_cast<uint16_t>(s[i]), "unit", "unit %#x became %#x", static_cast<unsigned>(static_cast<uint16_t>(s[i])), static_cast<unsigned>(w[i]));
}
static void units(mc::Ctx& c)
{
    const uint32_t v = 256 * c.choose(256 + 16 + 2, "block") ;
    const int pre = c.choose(3, "context");
    for(uint32_t i = 0; i < 256; ++i)
    {
        const uint32_t base = v < 0x11000 ? v : v == 0x11000 ? 0x10ff80 : 0x7fffff80u;
        std::wstring w(1, static_cast<wchar_t>(base + i));
        if(pre) w = L"a" + w;
        if(pre == 2) w += L"b";
        one(c, w);
        if(base + i < 0x10000) back(c, u16string(1, static_cast<unicode16_t>(base + i)) + u16string(pre, 'z'));
        c.outcome(mc::mix(base + i, pre));
    }
}
static void strings(mc::Ctx& c)
{
    static const uint32_t al[] = { 0, 1, 'a', 0x7f, 0x80, 0xff, 0x100, 0xd7ff, 0xd800, 0xdc00, 0xdfff, 0xe000, 0xfeff, 0xfffd, 0xfffe, 0xffff, 0x10000, 0x10ffff, 0x110000, 0x80000000u, 0xffffffffu };
    const int n = c.choose(mc::tier_pick(5, 6), "length");
    std::wstring w;
    u16string s;
    for(int i = 0; i < n; ++i) { const uint32_t x = c.pick(al, "character"); w += static_cast<wchar_t>(x); s += static_cast<unicode16_t>(x); c.desc(" %#x", x); }
    one(c, w);
    back(c, s);
    c.outcome(mc::hash(w.data(), w.size() * sizeof(wchar_t)));
}
static void lengths(mc::Ctx& c)
{
    // lengths around internal buffer sizes of converters
    static const int ns[] = { 0, 1, 2, 3, 4, 255, 256, 257, 2040, 2047, 2048, 4079, 4080, 4081, 8160, 8161, 16384, 65535, 65536 };
    const int n = c.pick(ns, "length"), bad = c.choose(3, "a bad character");
    std::wstring w;
    for(int i = 0; i < n; ++i) w += static_cast<wchar_t>(1 + i % 0xd7fe);
    if(bad && n) w[bad == 1 ? n - 1 : n / 2] = static_cast<wchar_t>(0x10400);
    one(c, w);
    c.outcome(n * 4 + bad);
}
namespace mc
{
const Part parts[] = {
    { "every-unit", units, 0, 0, "every 16-bit unit and every character up to 0x10fff (plus ranges at 0x10ff80 and 0x7fffff80) alone and in two contexts, both directions; each character in context is a case" },
    { "strings", strings, 0, 0, "all strings up to 4 (5) characters over 21 boundary characters, both directions" },
    { "lengths", lengths, 0, 0, "19 lengths up to 65536 with and without an unrepresentable character" },
};
const int part_count = sizeof(parts) / sizeof(parts[0]);
}
