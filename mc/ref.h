// Independent reference: builds PE files byte by byte, parses them again, and maps them as a loader would.
// Nothing here uses the library under test.
#pragma once
#include <stdint.h>
#include <string.h>
#include <string>
#include <vector>
#include <stdexcept>
#include <algorithm>
#include <memory>

namespace ref
{
typedef std::string Bytes;
struct Err { std::string what; explicit Err(const std::string& w) : what(w) {} };

inline void put(Bytes& b, size_t off, uint64_t v, unsigned n)
{
    if(b.size() < off + n) b.resize(off + n, 0);
    for(unsigned i = 0; i < n; ++i) b[off + i] = i < 8 ? static_cast<char>(v >> (8 * i)) : 0;
}
inline void put16(Bytes& b, size_t o, uint64_t v) { put(b, o, v, 2); }
inline void put32(Bytes& b, size_t o, uint64_t v) { put(b, o, v, 4); }
inline void put64(Bytes& b, size_t o, uint64_t v) { put(b, o, v, 8); }
inline void app(Bytes& b, uint64_t v, unsigned n) { put(b, b.size(), v, n); }
inline void app16(Bytes& b, uint64_t v) { app(b, v, 2); }
inline void app32(Bytes& b, uint64_t v) { app(b, v, 4); }
inline void putstr(Bytes& b, size_t off, const Bytes& s)
{
    if(b.size() < off + s.size()) b.resize(off + s.size(), 0);
    memcpy(&b[off], s.data(), s.size());
}
inline uint64_t get(const Bytes& b, size_t off, unsigned n)
{
    if(off > b.size() || n > b.size() - off) throw Err("read past end");
    uint64_t v = 0;
    for(unsigned i = 0; i < n; ++i) v |= static_cast<uint64_t>(static_cast<uint8_t>(b[off + i])) << (8 * i);
    return v;
}
inline uint16_t get16(const Bytes& b, size_t o) { return static_cast<uint16_t>(get(b, o, 2)); }
inline uint32_t get32(const Bytes& b, size_t o) { return static_cast<uint32_t>(get(b, o, 4)); }
inline uint64_t get64(const Bytes& b, size_t o) { return get(b, o, 8); }
inline uint64_t up(uint64_t x, uint64_t a) { return a ? (x + a - 1) / a * a : x; }
inline uint64_t down(uint64_t x, uint64_t a) { return a ? x / a * a : x; }

struct Dir { uint32_t rva, size; };
struct Sec
{
    Bytes name;             // up to 8 bytes
    uint32_t vsize, va, rawsize, rawptr, relptr, lineptr;
    uint16_t nrel, nline;
    uint32_t chars;
    Bytes data;             // placed at rawptr
    Sec() : vsize(0), va(0), rawsize(0), rawptr(0), relptr(0), lineptr(0), nrel(0), nline(0), chars(0xE0000020) {}
};

// Every header field, at its natural width
struct Spec
{
    bool pe64;
    uint16_t mz; Bytes dos;             // dos: the other 58 bytes between e_magic and e_lfanew (0 filled)
    uint32_t lfanew;
    Bytes stub;                         // bytes from 64 on (up to lfanew)
    uint32_t signature;
    uint16_t machine, nsections_delta; int nsections_override;
    uint32_t timestamp, symptr, nsyms; int optsize_override; uint16_t chars;
    uint16_t magic; uint8_t linkmaj, linkmin;
    uint32_t codesize, initsize, uninitsize, ep, codebase, database;
    uint64_t imagebase;
    uint32_t secalign, filealign;
    uint16_t osmaj, osmin, imgmaj, imgmin, submaj, submin; uint32_t win32ver;
    uint32_t imagesize, hdrsize, checksum; uint16_t subsystem, dllchars;
    uint64_t stackres, stackcom, heapres, heapcom; uint32_t loaderflags, ndirs;
    Dir dirs[16];
    std::vector<Sec> secs;
    Bytes tail;                         // overlay
    uint32_t largest;                   // sections with larger fields are not stored
    bool fill_headers;                  // pad the file to hdrsize even without sections
    explicit Spec(bool p64 = false)
        : pe64(p64), mz(0x5a4d), lfanew(0x80), signature(0x4550), machine(p64 ? 0x8664 : 0x14c), nsections_delta(0), nsections_override(-1),
          timestamp(0x4a5b6c7d), symptr(0), nsyms(0), optsize_override(-1), chars(0x0102), magic(p64 ? 0x20b : 0x10b), linkmaj(9), linkmin(1),
          codesize(0x200), initsize(0x400), uninitsize(0), ep(0x1000), codebase(0x1000), database(0x2000),
          imagebase(p64 ? 0x140000000ULL : 0x400000), secalign(0x1000), filealign(0x200), osmaj(5), osmin(1), imgmaj(1), imgmin(2), submaj(5), submin(2),
          win32ver(0), imagesize(0), hdrsize(0x400), checksum(0x1234), subsystem(3), dllchars(0x8140), stackres(0x100000), stackcom(0x1000),
          heapres(0x200000), heapcom(0x2000), loaderflags(0), ndirs(16), fill_headers(true)
    {
        largest = 0x1000000;
        memset(dirs, 0, sizeof(dirs));
        dos.assign(58, 0);
        stub.assign(0x40, 0x11);
    }
    uint32_t optsize() const { return optsize_override >= 0 ? static_cast<uint32_t>(optsize_override) : (pe64 ? 112 : 96) + 8 * ndirs; }
    uint32_t opt_off() const { return lfanew + 24; }
    uint32_t dirs_off() const { return opt_off() + (pe64 ? 112 : 96); }
    uint32_t secs_off() const { return opt_off() + optsize(); }

    // Adds a section behind the last one
    Sec& add(const Bytes& name, const Bytes& data, uint32_t vsize = 0, uint32_t chars = 0xE0000020)
    {
        Sec s;
        s.name = name; s.data = data; s.chars = chars;
        s.vsize = vsize ? vsize : static_cast<uint32_t>(data.size());
        s.rawsize = static_cast<uint32_t>(up(data.size(), filealign));
        uint64_t va = up(hdrsize, secalign), raw = up(hdrsize, filealign);
        for(size_t i = 0; i < secs.size(); ++i)
        {
            va = secs[i].va + up(secs[i].vsize ? secs[i].vsize : secs[i].rawsize, secalign);
            if(secs[i].rawsize) raw = up(secs[i].rawptr + secs[i].rawsize, filealign);
        }
        s.va = static_cast<uint32_t>(va);
        s.rawptr = s.rawsize ? static_cast<uint32_t>(raw) : 0;
        secs.push_back(s);
        imagesize = static_cast<uint32_t>(va + up(s.vsize ? s.vsize : s.rawsize, secalign));
        return secs.back();
    }
    // Section headers of this spec as bytes
    static Bytes sechdr(const Sec& s)
    {
        Bytes b = s.name.substr(0, 8);
        b.resize(8, 0);
        app32(b, s.vsize); app32(b, s.va); app32(b, s.rawsize); app32(b, s.rawptr); app32(b, s.relptr); app32(b, s.lineptr);
        app16(b, s.nrel); app16(b, s.nline); app32(b, s.chars);
        return b;
    }
    Bytes headers() const
    {
        Bytes b;
        put16(b, 0, mz);
        Bytes d = dos; d.resize(58, 0);
        putstr(b, 2, d);
        put32(b, 60, lfanew);
        if(stub.size()) putstr(b, 64, stub.substr(0, lfanew > 64 ? lfanew - 64 : 0));
        if(b.size() < lfanew) b.resize(lfanew, 0);
        size_t o = lfanew;
        put32(b, o, signature);
        put16(b, o + 4, machine);
        put16(b, o + 6, nsections_override >= 0 ? static_cast<unsigned>(nsections_override) : secs.size());
        put32(b, o + 8, timestamp); put32(b, o + 12, symptr); put32(b, o + 16, nsyms);
        put16(b, o + 20, optsize()); put16(b, o + 22, chars);
        o += 24;
        put16(b, o, magic); put(b, o + 2, linkmaj, 1); put(b, o + 3, linkmin, 1);
        put32(b, o + 4, codesize); put32(b, o + 8, initsize); put32(b, o + 12, uninitsize); put32(b, o + 16, ep); put32(b, o + 20, codebase);
        if(pe64) put64(b, o + 24, imagebase);
        else { put32(b, o + 24, database); put32(b, o + 28, imagebase); }
        put32(b, o + 32, secalign); put32(b, o + 36, filealign);
        put16(b, o + 40, osmaj); put16(b, o + 42, osmin); put16(b, o + 44, imgmaj); put16(b, o + 46, imgmin);
        put16(b, o + 48, submaj); put16(b, o + 50, submin); put32(b, o + 52, win32ver); put32(b, o + 56, imagesize);
        put32(b, o + 60, hdrsize); put32(b, o + 64, checksum); put16(b, o + 68, subsystem); put16(b, o + 70, dllchars);
        unsigned w = pe64 ? 8 : 4;
        put(b, o + 72, stackres, w); put(b, o + 72 + w, stackcom, w); put(b, o + 72 + 2 * w, heapres, w); put(b, o + 72 + 3 * w, heapcom, w);
        put32(b, o + 72 + 4 * w, loaderflags); put32(b, o + 76 + 4 * w, ndirs);
        for(unsigned i = 0; i < std::min<uint32_t>(ndirs, 16); ++i) { put32(b, dirs_off() + 8 * i, dirs[i].rva); put32(b, dirs_off() + 8 * i + 4, dirs[i].size); }
        for(size_t i = 0; i < secs.size(); ++i) putstr(b, secs_off() + 40 * i, sechdr(secs[i]));
        return b;
    }
    Bytes build() const
    {
        Bytes b = headers();
        if(fill_headers && b.size() < hdrsize && hdrsize < 0x100000) b.resize(hdrsize, 0);
        for(size_t i = 0; i < secs.size(); ++i)
        {
            if(!secs[i].rawsize && secs[i].data.empty()) continue;
            if(secs[i].rawptr > largest || secs[i].rawsize > largest) continue;
            size_t p = down(secs[i].rawptr, filealign >= 0x200 ? 0x200 : 1);
            if(secs[i].data.size()) putstr(b, secs[i].rawptr, secs[i].data);
            if(b.size() < secs[i].rawptr + secs[i].rawsize) b.resize(secs[i].rawptr + secs[i].rawsize, 0);
            (void)p;
        }
        b += tail;
        return b;
    }
    // The file as a memory dump: every section at its virtual address
    Bytes build_mapped() const
    {
        Bytes b = headers();
        if(b.size() < hdrsize) b.resize(hdrsize, 0);
        if(b.size() < imagesize) b.resize(imagesize, 0);
        for(size_t i = 0; i < secs.size(); ++i) if(secs[i].data.size()) putstr(b, secs[i].va, secs[i].data);
        return b;
    }
};

// Independent strict parser of a finished file
struct Img
{
    Spec h;
    Bytes file;
    bool stripped_dos;
    static Img parse(const Bytes& f)
    {
        Img r;
        r.file = f;
        r.h.secs.clear();
        if(get16(f, 0) != 0x5a4d) throw Err("no MZ");
        r.h.lfanew = get32(f, 60);
        r.stripped_dos = r.h.lfanew < 64;
        size_t o = r.h.lfanew;
        if(o > f.size()) throw Err("lfanew outside file");
        r.h.stub = o > 64 ? f.substr(64, o - 64) : Bytes();
        r.h.dos = f.substr(2, 58);
        if(get32(f, o) != 0x4550) throw Err("no PE signature");
        r.h.machine = get16(f, o + 4);
        unsigned ns = get16(f, o + 6);
        r.h.timestamp = get32(f, o + 8); r.h.symptr = get32(f, o + 12); r.h.nsyms = get32(f, o + 16);
        unsigned optsize = get16(f, o + 20); r.h.optsize_override = static_cast<int>(optsize);
        r.h.chars = get16(f, o + 22);
        o += 24;
        r.h.magic = get16(f, o);
        if(r.h.magic != 0x10b && r.h.magic != 0x20b) throw Err("bad magic");
        r.h.pe64 = r.h.magic == 0x20b;
        r.h.linkmaj = static_cast<uint8_t>(get(f, o + 2, 1)); r.h.linkmin = static_cast<uint8_t>(get(f, o + 3, 1));
        r.h.codesize = get32(f, o + 4); r.h.initsize = get32(f, o + 8); r.h.uninitsize = get32(f, o + 12); r.h.ep = get32(f, o + 16); r.h.codebase = get32(f, o + 20);
        if(r.h.pe64) { r.h.imagebase = get64(f, o + 24); r.h.database = 0; } else { r.h.database = get32(f, o + 24); r.h.imagebase = get32(f, o + 28); }
        r.h.secalign = get32(f, o + 32); r.h.filealign = get32(f, o + 36);
        r.h.osmaj = get16(f, o + 40); r.h.osmin = get16(f, o + 42); r.h.imgmaj = get16(f, o + 44); r.h.imgmin = get16(f, o + 46);
        r.h.submaj = get16(f, o + 48); r.h.submin = get16(f, o + 50); r.h.win32ver = get32(f, o + 52); r.h.imagesize = get32(f, o + 56);
        r.h.hdrsize = get32(f, o + 60); r.h.checksum = get32(f, o + 64); r.h.subsystem = get16(f, o + 68); r.h.dllchars = get16(f, o + 70);
        unsigned w = r.h.pe64 ? 8 : 4;
        r.h.stackres = get(f, o + 72, w); r.h.stackcom = get(f, o + 72 + w, w); r.h.heapres = get(f, o + 72 + 2 * w, w); r.h.heapcom = get(f, o + 72 + 3 * w, w);
        r.h.loaderflags = get32(f, o + 72 + 4 * w); r.h.ndirs = get32(f, o + 76 + 4 * w);
        size_t d = o + 80 + 4 * w;
        if(r.h.ndirs > 16) throw Err("more than 16 directories");
        if(optsize != 80 + 4 * w + 8 * r.h.ndirs) throw Err("optional header size does not match the directory count");
        for(unsigned i = 0; i < r.h.ndirs; ++i) { r.h.dirs[i].rva = get32(f, d + 8 * i); r.h.dirs[i].size = get32(f, d + 8 * i + 4); }
        size_t so = o + optsize;
        for(unsigned i = 0; i < ns; ++i, so += 40)
        {
            Sec s;
            s.name = f.substr(so, 8);
            if(s.name.size() < 8) throw Err("section header outside file");
            s.vsize = get32(f, so + 8); s.va = get32(f, so + 12); s.rawsize = get32(f, so + 16); s.rawptr = get32(f, so + 20);
            s.relptr = get32(f, so + 24); s.lineptr = get32(f, so + 28); s.nrel = get16(f, so + 32); s.nline = get16(f, so + 34); s.chars = get32(f, so + 36);
            if(s.rawsize)
            {
                if(s.rawptr > f.size() || s.rawsize > f.size() - s.rawptr) throw Err("section data outside file");
                s.data = f.substr(s.rawptr, s.rawsize);
            }
            r.h.secs.push_back(s);
        }
        return r;
    }
};

// Loader-style memory: ranges of bytes at relative addresses
struct Mem
{
    struct R { uint32_t va; Bytes b; };
    std::vector<R> r;
    void add(uint32_t va, const Bytes& b) { R x; x.va = va; x.b = b; r.push_back(x); }
    const R* find(uint64_t a, uint64_t n) const
    {
        for(size_t i = 0; i < r.size(); ++i)
            if(a >= r[i].va && a + n <= static_cast<uint64_t>(r[i].va) + r[i].b.size()) return &r[i];
        return 0;
    }
    bool has(uint64_t a, uint64_t n) const { return find(a, n) != 0; }
    uint64_t rd(uint64_t a, unsigned n) const
    {
        const R* x = find(a, n);
        if(!x) { char t[64]; snprintf(t, sizeof(t), "address %llx+%u not mapped", static_cast<unsigned long long>(a), n); throw Err(t); }
        return get(x->b, a - x->va, n);
    }
    uint16_t r16(uint64_t a) const { return static_cast<uint16_t>(rd(a, 2)); }
    uint32_t r32(uint64_t a) const { return static_cast<uint32_t>(rd(a, 4)); }
    uint64_t r64(uint64_t a) const { return rd(a, 8); }
    Bytes bytes(uint64_t a, uint64_t n) const
    {
        const R* x = find(a, n);
        if(!x) { char t[64]; snprintf(t, sizeof(t), "range %llx+%llx not mapped", static_cast<unsigned long long>(a), static_cast<unsigned long long>(n)); throw Err(t); }
        return x->b.substr(a - x->va, n);
    }
    Bytes cstr(uint64_t a) const
    {
        const R* x = find(a, 1);
        if(!x) throw Err("string not mapped");
        size_t o = a - x->va;
        size_t e = x->b.find('\0', o);
        if(e == Bytes::npos) throw Err("string not terminated");
        return x->b.substr(o, e - o);
    }
    // A parsed file, mapped: each section zero-extended to its aligned virtual size
    static Mem map(const Img& i)
    {
        Mem m;
        m.add(0, i.file.substr(0, std::min<size_t>(i.file.size(), i.h.hdrsize)));
        for(size_t k = 0; k < i.h.secs.size(); ++k)
        {
            const Sec& s = i.h.secs[k];
            uint64_t vs = up(s.vsize ? s.vsize : s.rawsize, i.h.secalign);
            if(vs > 0x4000000) throw Err("huge section");
            Bytes b = s.data.substr(0, vs);
            b.resize(vs, 0);
            m.add(s.va, b);
        }
        return m;
    }
};
}
