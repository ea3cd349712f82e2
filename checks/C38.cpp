// C38: alignment and arithmetic helpers are exact.
#include "util.h"
using namespace u;
const char* const mc::check_id = "C38";

template<typename T> static void align(mc::Ctx& c, T x, uint32_t a)
{
    const unsigned __int128 v = x;
    MC_REQUIRE(c, pe_utils::align_down(x, a) == static_cast<T>(v / a * a), "align-down", "align_down(%#llx, %#x) = %#llx", static_cast<unsigned long long>(x), a, static_cast<unsigned long long>(pe_utils::align_down(x, a)));
    const unsigned __int128 up = (v + a - 1) / a * a;
    if(up == static_cast<T>(up)) MC_REQUIRE(c, pe_utils::align_up(x, a) == static_cast<T>(up), "align-up", "align_up(%#llx, %#x) = %#llx", static_cast<unsigned long long>(x), a, static_cast<unsigned long long>(pe_utils::align_up(x, a)));
}
static std::vector<uint64_t> edges(int bits, int around)
{
    std::vector<uint64_t> r;
    for(int b = 0; b < bits; ++b) for(int d = -around; d <= around; ++d) r.push_back((1ULL << b) + static_cast<uint64_t>(static_cast<int64_t>(d)));
    for(int d = 1; d <= around + 1; ++d) r.push_back(bits == 64 ? static_cast<uint64_t>(-d) : (1ULL << bits) - d);
    return r;
}
static void alignment(mc::Ctx& c)
{
    const uint32_t a = 1u << c.choose(32, "alignment");
    const int what = c.choose(3, "range");
    unsigned n = 0;
    if(what == 0) { for(uint32_t x = 0; x < 0x10000; ++x, ++n) { align<uint32_t>(c, x, a); align<uint64_t>(c, x, a); } }
    else
    {
        const std::vector<uint64_t> e = edges(what == 1 ? 32 : 64, mc::tier_pick(40, 400));
        for(size_t i = 0; i < e.size(); ++i, ++n)
        {
            if(what == 1) align<uint32_t>(c, static_cast<uint32_t>(e[i]), a);
            align<uint64_t>(c, e[i], a); align<size_t>(c, e[i], a);
            // around multiples of the alignment too
            for(int d = -1; d <= 1; ++d) { const uint64_t y = e[i] / a * a + static_cast<uint64_t>(static_cast<int64_t>(d)); if(what == 1) align<uint32_t>(c, static_cast<uint32_t>(y), a); else align<uint64_t>(c, y, a); }
        }
    }
    c.desc("alignment %#x, range %d, %u values", a, what, n);
    c.outcome(mc::mix(a, what));
    c.step(n);
}
static bool p2(uint64_t x) { int n = 0; while(x) { n += x & 1; x >>= 1; } return n == 1; }
static void powers(mc::Ctx& c)
{
    const int what = c.choose(3, "range");
    std::vector<uint64_t> e;
    if(what == 0) for(uint64_t x = 0; x < 0x40000; ++x) e.push_back(x);
    else e = edges(what == 1 ? 32 : 64, 100);
    if(what) for(int i = 0; i < (what == 1 ? 32 : 64); ++i) for(int j = 0; j < i; ++j) e.push_back((1ULL << i) | (1ULL << j));
    for(size_t i = 0; i < e.size(); ++i)
    {
        if(what < 2) MC_REQUIRE(c, pe_utils::is_power_of_2<uint32_t>(static_cast<uint32_t>(e[i])) == p2(static_cast<uint32_t>(e[i])), "power-of-2", "is_power_of_2(%#llx)", static_cast<unsigned long long>(e[i]));
        MC_REQUIRE(c, pe_utils::is_power_of_2<uint64_t>(e[i]) == p2(e[i]), "power-of-2", "is_power_of_2(%#llx)", static_cast<unsigned long long>(e[i]));
    }
    c.outcome(what);
}
static void sums(mc::Ctx& c)
{
    const std::vector<uint64_t> e = edges(32, 3);
    const uint32_t a = static_cast<uint32_t>(e[c.choose(static_cast<int>(e.size()), "a")]);
    for(size_t i = 0; i < e.size(); ++i)
    {
        const uint32_t b = static_cast<uint32_t>(e[i]);
        MC_REQUIRE(c, pe_utils::is_sum_safe(a, b) == (static_cast<uint64_t>(a) + b <= 0xffffffffULL), "sum", "is_sum_safe(%#x, %#x)", a, b);
        const uint32_t rest = 0xffffffffu - a;
        MC_REQUIRE(c, pe_utils::is_sum_safe(a, rest) && pe_utils::is_sum_safe(rest, a) && (a == 0 || (!pe_utils::is_sum_safe(a, rest + 1) && !pe_utils::is_sum_safe(rest + 1, a))), "sum", "is_sum_safe around %#x", a);
        c.outcome(mc::mix(a, b));
    }
}
template<typename T> static void term(mc::Ctx& c, int n, int zero, size_t odd)
{
    // exactly n elements plus some odd bytes, so that reading further is caught
    std::vector<char> raw(n * sizeof(T) + odd, 'x');
    T* p = reinterpret_cast<T*>(raw.data());
    if(zero < n) memset(reinterpret_cast<char*>(p) + zero * sizeof(T), 0, sizeof(T));
    if(odd) memset(raw.data() + n * sizeof(T), 0, odd);
    MC_REQUIRE(c, pe_utils::is_null_terminated(p, raw.size()) == (zero < n), "terminator", "%d elements of %zu bytes, terminator at %d", n, sizeof(T), zero);
}
static void terminators(mc::Ctx& c)
{
    const int n = c.choose(9, "elements"), zero = c.choose(n + 1, "terminator"), odd = c.choose(2, "odd byte");
    term<char>(c, n, zero, 0);
    term<unicode16_t>(c, n, zero, odd);
    term<uint32_t>(c, n, zero, odd * 3);
    for(int t = 0; t < 4; ++t)
    {
        std::string s(n - zero ? zero : n, 'y');
        std::string x = s + std::string(t, '\0');
        pe_utils::strip_nullbytes(x);
        MC_REQUIRE(c, x == s, "strip", "strip_nullbytes leaves %zu of %zu characters", x.size(), s.size());
        std::wstring w = std::wstring(L"a\0b", 3) + std::wstring(t, L'\0');
        pe_utils::strip_nullbytes(w);
        MC_REQUIRE(c, w == std::wstring(L"a\0b", 3), "strip", "strip_nullbytes on a wide string");
    }
    // only elements that are zero as a whole are stripped
    static const uint32_t lasts[] = { 1, 0xff, 0x100, 0xff00, 0x10000, 0x1000000, 0x7fffff00 };
    for(size_t i = 0; i < sizeof(lasts) / sizeof(*lasts); ++i) for(int t = 0; t < 3; ++t)
    {
        std::wstring w = std::wstring(n, L'z') + static_cast<wchar_t>(lasts[i]), x = w + std::wstring(t, L'\0');
        pe_utils::strip_nullbytes(x);
        MC_REQUIRE(c, x == w, "strip", "strip_nullbytes on a wide string that ends with %#x", lasts[i]);
        u16string v(n, static_cast<unicode16_t>('z')); v += static_cast<unicode16_t>(lasts[i] & 0xffff ? lasts[i] : 0x100);
        u16string y = v + u16string(t, 0);
        pe_utils::strip_nullbytes(y);
        MC_REQUIRE(c, y == v, "strip", "strip_nullbytes on a two-byte string that ends with %#x", lasts[i]);
    }
    c.outcome(n * 20 + zero * 2 + odd);
}
static void guids(mc::Ctx& c)
{
    pe_win::guid a, b;
    memset(&a, 0, sizeof(a));
    const int fill = c.choose(2, "value");
    if(fill) memset(&a, 0xa5, sizeof(a));
    b = a;
    const int byte = c.choose(17, "differing byte");
    const int bit = c.choose(8, "differing bit");
    if(byte < 16) reinterpret_cast<unsigned char*>(&b)[byte] ^= 1 << bit;
    MC_REQUIRE(c, (a == b) == (byte == 16) && (b == a) == (byte == 16), "guid", "identifiers differing in byte %d compare %s", byte, a == b ? "equal" : "different");
    c.outcome(byte * 16 + bit * 2 + fill);
}
namespace mc
{
const Part parts[] = {
    { "alignment", alignment, 0, 0, "every power-of-two alignment x all values below 65536 and windows around every power of two in 32 and 64 bits; a case is one alignment and range (transitions count the values)" },
    { "powers-of-two", powers, 0, 0, "all values below 2^18, windows around powers of two and all two-bit values" },
    { "sums", sums, 0, 0, "all pairs of values around powers of two" },
    { "terminators", terminators, 0, 0, "all element counts up to 8 x terminator position x partial trailing element, three element widths, in exact-size buffers" },
    { "identifiers", guids, 0, 0, "every single-bit difference of two identifiers" },
};
const int part_count = sizeof(parts) / sizeof(parts[0]);
}
