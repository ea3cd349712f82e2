// Directory contents laid out independently of the library: pieces with references to each other, put at any place.
#pragma once
#include "mc.h"
#include "ref.h"
#include "images.h"
#include "util.h"

namespace lay
{
using ref::Bytes; using ref::Spec;
enum { dir_section = 1, code_rva = 0x1000, code_size = 0x200 };
struct Fix { size_t off; unsigned w; int target; int64_t delta; bool va; };     // target -1: an absolute relative address in delta
struct Piece
{
    Bytes b; unsigned align; std::vector<Fix> f;
    explicit Piece(unsigned a = 1) : align(a) {}
    void v(uint64_t x, unsigned w) { ref::app(b, x, w); }
    void ref_(int target, unsigned w = 4, int64_t delta = 0, bool va = false) { Fix x = { b.size(), w, target, delta, va }; f.push_back(x); b.append(w, 0); }
    void str(const Bytes& s) { b += s; b.push_back(0); }
};
// places: 0 followed by other bytes, 1 ending with a full section, 2 its zero tail in virtual data, 3 the same at the end of virtual data, 4 in the headers
enum { places = 5 };
struct Lay
{
    std::vector<Piece> p; std::vector<uint32_t> at;
    bool pe64; int place; Spec s; Bytes file;
    bool plain, last;                   // pieces in their natural order without gaps; no section behind
    uint32_t base, end_;                // relative addresses of the whole content
    size_t fileoff; size_t len;         // where the content is in the file, and how much of it
    int64_t cut;                        // the section ends with its address range after so many bytes of the content (-1: as the place says)
    Lay(bool p64, int pl) : pe64(p64), place(pl), s(p64), plain(false), last(false), base(0), end_(0), fileoff(0), len(0), cut(-1) {}
    int add(const Piece& x) { p.push_back(x); return static_cast<int>(p.size()) - 1; }
    // positions of all pieces, in an order at most the deviation budget away from the natural one
    void order(mc::Ctx& c, std::vector<int>& o)
    {
        std::vector<int> left;
        for(size_t i = 0; i < p.size(); ++i) left.push_back(static_cast<int>(i));
        // any piece may be the one that ends the content, and with it the section
        const int z = c.dev(static_cast<int>(p.size()), "last piece");
        if(z) { std::swap(left[z - 1], left.back()); }
        while(!left.empty()) { const int k = left.size() > 1 ? c.dev(static_cast<int>(left.size()), "next piece") : 0; o.push_back(left[k]); left.erase(left.begin() + k); }
    }
    bool build(mc::Ctx& c, int dir, uint32_t dirsize, int dirpiece)
    {
        std::vector<int> o;
        if(plain) for(size_t i = 0; i < p.size(); ++i) o.push_back(static_cast<int>(i));
        else order(c, o);
        static const unsigned gaps[] = { 0, 1, 6 };
        const unsigned gap = plain ? 0 : c.pickdev(gaps, "gap between the pieces");
        std::vector<uint32_t> off(p.size());
        uint32_t pos = place == 0 || place == 2 ? 0x14 : 0;
        for(size_t i = 0; i < o.size(); ++i)
        {
            pos = ref::up(pos, p[o[i]].align);
            // contents that have to end with the section: the gap is in front of the last piece
            if(i + 1 == o.size() && (place == 1 || place == 3) && cut < 0) for(int k = 0; k < 8 && (pos + p[o[i]].b.size()) % 8; ++k) pos += p[o[i]].align;
            off[o[i]] = pos; pos += p[o[i]].b.size() + (i + 1 < o.size() ? gap : 0);
        }
        len = pos;
        s.hdrsize = 0x600; s.largest = 0x4000000;
        Bytes code = img::pattern(code_size, 9);
        s.add(".text", code);
        if(cut >= 0) base = 0x3000 - static_cast<uint32_t>(cut);
        else if(place == 4) { base = 0x600 - len; base -= base % 4; if(len > 0x300) return false; }
        else if(place == 1 || place == 3) { const uint32_t total = ref::up(len, 0x1000); base = total - len; base -= base % 8; if(base + static_cast<uint32_t>(len) != total) return false; base += 0x2000; }
        else base = 0x2000;
        at.resize(p.size());
        for(size_t i = 0; i < p.size(); ++i) at[i] = base + off[i];
        Bytes blob;
        blob.assign(len, '\xcd');
        for(size_t i = 0; i < p.size(); ++i)
        {
            Bytes b = p[i].b;
            for(size_t k = 0; k < p[i].f.size(); ++k)
            {
                const Fix& x = p[i].f[k];
                uint64_t v = x.target < 0 ? x.delta : at[x.target] + x.delta;
                if(x.va) v += s.imagebase;
                ref::put(b, x.off, v, x.w);
            }
            ref::putstr(blob, off[i], b);
        }
        end_ = base + len;
        if(cut >= 0)
        {
            s.add(".dirs", img::pattern(base - 0x2000, 6) + blob.substr(0, cut));
        }
        else if(place == 4)
        {
            s.add(".dirs", img::pattern(0x20, 7));
            if(!last) s.add(".z", img::pattern(8, 4));
        }
        else
        {
            Bytes d = img::pattern(base - 0x2000, 6) + blob;
            uint32_t vs = 0;
            if(place == 0) { d += img::pattern(0x30, 8); }
            else { vs = ref::up(d.size(), 0x1000); if(place != 1) d = u::rtrim(d); }
            s.add(".dirs", d, vs);
            if(place != 0) { s.secs[1].rawsize = d.size(); }    // exactly the stored bytes
            if(!last) s.add(".z", img::pattern(8, 4));
            if(place != 0 && !last) s.secs[2].rawptr = ref::up(s.secs[1].rawptr + s.secs[1].rawsize, 0x200);
        }
        s.dirs[dir].rva = at[dirpiece]; s.dirs[dir].size = dirsize;
        file = s.build();
        if(place == 4 && cut < 0) ref::putstr(file, base, blob);
        fileoff = place == 4 && cut < 0 ? base : s.secs[1].rawptr + (base - 0x2000);
        c.desc("%s, %zu pieces, place %d", pe64 ? "PE+" : "PE", p.size(), place);
        return true;
    }
};
}
