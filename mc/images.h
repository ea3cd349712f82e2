// A bounded set of small base images, laid out by the reference builder.
#pragma once
#include "ref.h"

namespace img
{
using ref::Bytes; using ref::Spec; using ref::Sec;

inline Bytes pattern(size_t n, unsigned seed)
{
    Bytes b(n, 0);
    unsigned x = seed * 2654435761u + 12345;
    for(size_t i = 0; i < n; ++i) { x = x * 1664525u + 1013904223u; b[i] = static_cast<char>(x >> 24 | 1); }
    return b;
}

enum { k_plain, k_one, k_zero, k_lowalign, k_bss, k_debug, k_overlay, k_fewdirs, k_bigalign, k_tiny, kinds };

inline Spec base(int kind, bool pe64)
{
    Spec s(pe64);
    switch(kind)
    {
    case k_plain:
        s.add(".text", pattern(0x200, 1)); s.add(".data", pattern(0x150, 2), 0x1800); s.add(".rsrc", pattern(0x200, 3));
        s.dirs[2].rva = s.secs[2].va; s.dirs[2].size = 0x40;
        break;
    case k_one: s.add(".text", pattern(0x90, 4)); break;
    case k_zero: s.imagesize = 0x1000; break;
    case k_lowalign:
        s.secalign = s.filealign = 0x10; s.hdrsize = 0x300;
        s.add("a", pattern(0x20, 5)); s.add("b", pattern(0x31, 6)); break;
    case k_bss:
        s.add(".text", pattern(0x200, 7)); s.add(".bss", Bytes(), 0x2345); s.add(".z", pattern(0x10, 8)); break;
    case k_debug:
    {
        Bytes d = pattern(0x200, 9);
        // two debug entries at +0x20: codeview (type 2) and misc (type 4), then a terminator
        ref::put(d, 0x20, 0, 8); ref::put32(d, 0x28, 0); ref::put32(d, 0x20 + 12, 2); ref::put32(d, 0x20 + 16, 0x30); ref::put32(d, 0x20 + 20, 0x1100); ref::put32(d, 0x20 + 24, 0x500);
        ref::put(d, 0x3c, 0, 12); ref::put32(d, 0x3c + 12, 4); ref::put32(d, 0x3c + 16, 0x20); ref::put32(d, 0x3c + 20, 0x1140); ref::put32(d, 0x3c + 24, 0x540);
        for(unsigned i = 0; i < 28; ++i) d[0x58 + i] = 0;
        s.add(".text", d);
        s.dirs[6].rva = s.secs[0].va + 0x20; s.dirs[6].size = 56;
        break;
    }
    case k_overlay: s.add(".text", pattern(0x200, 10)); s.tail = pattern(0x33, 11); break;
    case k_fewdirs: s.ndirs = 3; s.add(".text", pattern(0x100, 12)); break;
    case k_bigalign: s.secalign = 0x10000; s.filealign = 0x400; s.add(".a", pattern(0x300, 13)); s.add(".b", pattern(0x3ff, 14), 0x10001); break;
    case k_tiny: s.lfanew = 0x40; s.stub.clear(); s.ndirs = 0; s.secalign = s.filealign = 4; s.hdrsize = pe64 ? 0xf8 : 0xe8; s.add("t", pattern(8, 15)); break;
    }
    return s;
}
}
