// Explorer engine: DFS over choice sequences, sharding, crash-safe trace record, result file.
#include "mc.h"
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <signal.h>
#include <unistd.h>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <new>
#include <exception>
#include <typeinfo>
#include <unordered_set>
#include <set>

namespace mc
{
// ------------------------------------------------------------------ allocation control
static uint64_t g_live = 0, g_calls = 0;
static size_t g_cap = 64u << 20, g_peak = 0;
static int64_t g_fail_in = -1;
static bool g_failed = false, g_noleak = false;

uint64_t live_allocs() { return g_live; }
uint64_t alloc_calls() { return g_calls; }
void set_alloc_cap(size_t b) { g_cap = b; }
void fail_alloc_at(int64_t n) { g_fail_in = n; g_failed = false; }
bool alloc_failed() { return g_failed; }
size_t peak_request() { return g_peak; }
void reset_peak() { g_peak = 0; }
void no_leak_check() { g_noleak = true; }

static void* do_new(size_t n)
{
    ++g_calls;
    if(n > g_peak) g_peak = n;
    if(g_fail_in >= 0 && g_fail_in-- == 0) { g_failed = true; throw std::bad_alloc(); }
    if(n > g_cap) throw std::bad_alloc();
    void* p = malloc(n ? n : 1);
    if(!p) throw std::bad_alloc();
    ++g_live;
    return p;
}
static void do_delete(void* p) { if(p) { --g_live; free(p); } }
}

void* operator new(size_t n) { return mc::do_new(n); }
void* operator new[](size_t n) { return mc::do_new(n); }
void operator delete(void* p) noexcept { mc::do_delete(p); }
void operator delete[](void* p) noexcept { mc::do_delete(p); }
void operator delete(void* p, size_t) noexcept { mc::do_delete(p); }
void operator delete[](void* p, size_t) noexcept { mc::do_delete(p); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { try { return mc::do_new(n); } catch(...) { return 0; } }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { try { return mc::do_new(n); } catch(...) { return 0; } }
void operator delete(void* p, const std::nothrow_t&) noexcept { mc::do_delete(p); }
void operator delete[](void* p, const std::nothrow_t&) noexcept { mc::do_delete(p); }

// iconv descriptors are resources too: count them
#include <iconv.h>
extern "C" iconv_t __real_iconv_open(const char*, const char*);
extern "C" int __real_iconv_close(iconv_t);
extern "C" iconv_t __wrap_iconv_open(const char* a, const char* b)
{
    iconv_t r = __real_iconv_open(a, b);
    if(r != reinterpret_cast<iconv_t>(-1)) ++mc::g_live;
    return r;
}
extern "C" int __wrap_iconv_close(iconv_t c) { --mc::g_live; return __real_iconv_close(c); }

namespace mc
{
// ------------------------------------------------------------------ state
struct Shared
{
    volatile uint64_t execs;
    volatile uint32_t part;
    volatile uint32_t n;
    volatile uint16_t val[max_choices];
};
static Shared* sh;
static uint16_t c_val[max_choices], c_num[max_choices];
static uint8_t c_isdev[max_choices];
static int c_len = 0, c_pos = 0;       // c_len: forced prefix length while replaying
static bool g_thorough = false;
static int g_shard = 0, g_nshards = 1;
static uint64_t g_bucket = 0, g_width = 1;
static bool g_bucketed = false;
static char g_desc[1 << 16];
static size_t g_desc_len = 0;
static bool g_want_desc = false;
static uint64_t g_out[256]; static int g_nout = 0;
static uint64_t g_st[4096]; static int g_nst = 0;
static bool g_replay = false;
static std::set<std::string>* g_known;
static uint64_t g_known_hits = 0;

bool thorough() { return g_thorough; }

int Ctx::choose(int n, const char* what)
{
    if(n <= 0 || n > 65535) { fprintf(stderr, "mc: choose(%d) for %s\n", n, what); _exit(3); }
    if(n == 1) return 0;
    if(c_pos >= max_choices) { fprintf(stderr, "mc: too many choices\n"); _exit(3); }
    int v = 0;
    if(c_pos < c_len)
    {
        v = c_val[c_pos];
        if(g_replay) c_num[c_pos] = static_cast<uint16_t>(n);
        if(c_num[c_pos] != n || v >= n)
        {
            fprintf(stderr, "mc: nondeterministic choice structure at %d (%s): %d then %d\n", c_pos, what, c_num[c_pos], n);
            _exit(3);
        }
    }
    else
    {
        c_val[c_pos] = 0;
        c_num[c_pos] = static_cast<uint16_t>(n);
        c_len = c_pos + 1;
    }
    c_isdev[c_pos] = 0;
    sh->val[c_pos] = static_cast<uint16_t>(v);
    ++c_pos;
    sh->n = static_cast<uint32_t>(c_pos);
    if(!g_bucketed && !g_replay && g_nshards > 1)
    {
        g_bucket = mix(g_bucket, static_cast<uint64_t>(v) + 1);
        g_width *= static_cast<uint64_t>(n);
        if(g_width >= static_cast<uint64_t>(g_nshards) * 24)
        {
            g_bucketed = true;
            if(static_cast<int>((g_bucket >> 7) % static_cast<uint64_t>(g_nshards)) != g_shard) throw SkipShard();
        }
    }
    return v;
}

int Ctx::dev(int n, const char* what)
{
    if(devs_used >= dev_budget) return 0;
    int v = choose(n, what);
    if(v) ++devs_used;
    return v;
}

void Ctx::outcome(uint64_t h) { if(g_nout < 256) g_out[g_nout++] = h; }
void Ctx::state(uint64_t h) { if(g_nst < 4096) g_st[g_nst++] = h; }

void Ctx::desc(const char* fmt, ...)
{
    if(!g_want_desc || g_desc_len + 2 >= sizeof(g_desc)) return;
    if(g_desc_len && g_desc[g_desc_len - 1] != '\n' && g_desc_len + 4 < sizeof(g_desc)) { memcpy(g_desc + g_desc_len, "; ", 3); g_desc_len += 2; }
    va_list ap; va_start(ap, fmt);
    int r = vsnprintf(g_desc + g_desc_len, sizeof(g_desc) - g_desc_len - 1, fmt, ap);
    va_end(ap);
    if(r > 0) g_desc_len += static_cast<size_t>(r);
    if(g_desc_len > sizeof(g_desc) - 2) g_desc_len = sizeof(g_desc) - 2;
    g_desc[g_desc_len] = 0;
}

void Ctx::fail(const char* key, const char* fmt, ...)
{
    char buf[8192];
    va_list ap; va_start(ap, fmt);
    vsnprintf(buf, sizeof(buf), fmt, ap);
    va_end(ap);
    fail_alloc_at(-1);
    if(g_known && g_known->count(key)) { ++g_known_hits; throw KnownHit(); }
    Violation v; v.key = key; v.msg = buf;
    throw v;
}

std::string hex(const std::string& s, size_t max)
{
    static const char d[] = "0123456789abcdef";
    std::string r;
    for(size_t i = 0; i < s.size() && i < max; ++i) { r += d[(s[i] >> 4) & 15]; r += d[s[i] & 15]; }
    if(s.size() > max) r += "..";
    return r;
}

// ------------------------------------------------------------------ engine
static double now()
{
    struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t);
    return static_cast<double>(t.tv_sec) + 1e-9 * static_cast<double>(t.tv_nsec);
}

static volatile uint64_t w_last = ~0ULL; static volatile int w_same = 0, w_limit = 15;
void allow_seconds(int n) { w_limit = n / 2; }
static void on_alarm(int)
{
    if(sh->execs == w_last) { if(++w_same >= w_limit) { static const char m[] = "mc: HANG: one execution runs for over 30 s\n"; ssize_t r = write(2, m, sizeof(m) - 1); (void)r; _exit(97); } }
    else { w_last = sh->execs; w_same = 0; }
}

enum Res { r_ok, r_skip, r_known, r_violation };

static Res run_once(const Part& p, Violation& out, uint64_t& leaked, uint32_t& steps, uint32_t& traces)
{
    Ctx ctx;
    ctx.dev_budget = g_thorough ? p.dev_thorough : p.dev_quick;
    c_pos = 0; sh->n = 0;
    g_bucket = 0; g_width = 1; g_bucketed = false;
    g_nout = 0; g_nst = 0; g_desc_len = 0; g_desc[0] = 0;
    g_noleak = false; g_fail_in = -1; g_cap = 64u << 20; w_limit = 15;
    const uint64_t before = g_live;
    Res res = r_ok;
    try { p.run(ctx); }
    catch(const SkipShard&) { res = r_skip; }
    catch(const KnownHit&) { res = r_known; }
    catch(const Violation& v) { g_fail_in = -1; out = v; res = r_violation; }
    catch(const std::exception& e)
    {
        g_fail_in = -1;
        out.key = "unexpected-exception"; out.msg = std::string("unexpected ") + typeid(e).name() + ": " + e.what();
        res = r_violation;
    }
    catch(...) { g_fail_in = -1; out.key = "foreign-exception"; out.msg = "an object that is no std::exception was thrown"; res = r_violation; }
    g_fail_in = -1;
    ++sh->execs;
    leaked = (res == r_ok || res == r_known) && !g_noleak ? g_live - before : 0;
    steps = ctx.steps; traces = ctx.traces;
    if(res != r_skip && !g_bucketed && !g_replay && g_nshards > 1
       && static_cast<int>((g_bucket >> 7) % static_cast<uint64_t>(g_nshards)) != g_shard && res != r_violation)
        res = r_skip;
    return res;
}

static bool advance()
{
    int i = c_pos - 1;
    while(i >= 0 && c_val[i] + 1 >= c_num[i]) --i;
    if(i < 0) return false;
    ++c_val[i];
    c_len = i + 1;
    return true;
}

static std::string jesc(const std::string& s)
{
    std::string r;
    for(size_t i = 0; i < s.size(); ++i)
    {
        unsigned char c = static_cast<unsigned char>(s[i]);
        if(c == '"' || c == '\\') { r += '\\'; r += static_cast<char>(c); }
        else if(c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof(b), "\\u%04x", c); r += b; }
        else r += static_cast<char>(c);
    }
    return r;
}

static int usage() { fprintf(stderr, "usage: --shard i/n --tier T --out F --shared F [--known F] [--deadline s] | --replay-part NAME --choices a,b,c --tier T\n"); return 3; }
}

using namespace mc;

int main(int argc, char** argv)
{
    const char* out = 0; const char* shared = 0; const char* rpart = 0; const char* rchoices = ""; const char* known = 0; const char* only = 0;
    double deadline = 1e9;
    if(argc == 2 && std::string(argv[1]) == "--list")
    {
        for(int p = 0; p < part_count; ++p) printf("%s\n", parts[p].name);
        return 0;
    }
    for(int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        if(i + 1 >= argc) return usage();
        const char* v = argv[++i];
        if(a == "--shard") { if(sscanf(v, "%d/%d", &g_shard, &g_nshards) != 2) return usage(); }
        else if(a == "--tier") g_thorough = std::string(v) == "thorough";
        else if(a == "--out") out = v;
        else if(a == "--shared") shared = v;
        else if(a == "--known") known = v;
        else if(a == "--only") only = v;
        else if(a == "--deadline") deadline = atof(v);
        else if(a == "--replay-part") rpart = v;
        else if(a == "--choices") rchoices = v;
        else return usage();
    }
    static Shared local;
    sh = &local;
    if(shared)
    {
        int fd = open(shared, O_RDWR | O_CREAT | O_TRUNC, 0644);
        if(fd < 0 || ftruncate(fd, sizeof(Shared))) { perror("shared"); return 3; }
        sh = static_cast<Shared*>(mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
        if(sh == MAP_FAILED) { perror("mmap"); return 3; }
    }
    g_known = new std::set<std::string>();
    if(known)
    {
        FILE* f = fopen(known, "r"); char line[1024];
        while(f && fgets(line, sizeof(line), f)) { line[strcspn(line, "\n")] = 0; if(*line) g_known->insert(line); }
        if(f) fclose(f);
    }
    signal(SIGALRM, on_alarm);
    struct itimerval it; it.it_interval.tv_sec = 2; it.it_interval.tv_usec = 0; it.it_value = it.it_interval;
    setitimer(ITIMER_REAL, &it, 0);

    if(rpart)
    {
        for(int p = 0; p < part_count; ++p)
        {
            if(std::string(parts[p].name) != rpart) continue;
            g_replay = true; g_want_desc = true; g_nshards = 1;
            const char* s = rchoices; c_len = 0;
            while(*s) { char* e; c_val[c_len++] = static_cast<uint16_t>(strtoul(s, &e, 10)); if(*e == ',') ++e; if(e == s) break; s = e; }
            int given = c_len;
            Violation v; uint64_t leak = 0; uint32_t st, tr;
            Res r = run_once(parts[p], v, leak, st, tr);
            printf("part: %s\ncase: %s\n", rpart, g_desc);
            if(r == r_violation) { printf("FAIL key=%s\n%s\n", v.key.c_str(), v.msg.c_str()); return 1; }
            if(leak)
            {
                c_len = given;
                r = run_once(parts[p], v, leak, st, tr);
                if(leak) { printf("FAIL key=leak\n%lld allocation(s) not released\n", static_cast<long long>(leak)); return 1; }
            }
            printf("the property held\n");
            return 0;
        }
        fprintf(stderr, "no such part\n");
        return 3;
    }

    if(!out) return usage();
    FILE* o = fopen(out, "w");
    if(!o) { perror("out"); return 3; }
    std::string hout = std::string(out) + ".hashes";
    FILE* ho = fopen(hout.c_str(), "wb");
    if(!ho) { perror("hashes"); return 3; }
    const double start = now();
    fprintf(o, "{\"parts\":[");
    bool violated = false;
    bool firstp = true;
    for(int p = 0; p < part_count && !violated; ++p)
    {
        const Part& part = parts[p];
        if(only && std::string(only) != part.name) continue;
        sh->part = static_cast<uint32_t>(p);
        uint64_t evals = 0, steps = 0, traces = 0, choices = 0, known0 = g_known_hits, oidx = 0;
        bool complete = true;
        std::unordered_set<uint64_t> outs, states;
        std::vector<std::string> samples;
        uint64_t next_sample = 0;
        Violation v; std::string vdesc; std::vector<uint16_t> vch;
        c_len = 0;
        const double pstart = now();
        // a part may use up to twice its share of the time left
        const double left = deadline - (pstart - start), share = only || p + 2 >= part_count ? left : left * 2 / (part_count - p);
        for(;;)
        {
            g_want_desc = evals >= next_sample && samples.size() < 4;
            uint64_t leak = 0; uint32_t st = 0, tr = 0;
            Res r = run_once(part, v, leak, st, tr);
            if(r == r_ok || r == r_known)
            {
                if(leak)
                {
                    // a cache filled once is no leak: only a second execution that leaks again counts
                    int len = c_pos; c_len = len;
                    Violation v2; uint64_t leak2 = 0;
                    run_once(part, v2, leak2, st, tr);
                    if(leak2)
                    {
                        if(g_known->count("leak")) { ++g_known_hits; }
                        else { r = r_violation; v.key = "leak"; v.msg = std::to_string(static_cast<long long>(leak2)) + " allocation(s) not released"; }
                    }
                }
            }
            if(r == r_violation)
            {
                vch.assign(c_val, c_val + c_pos);
                // describe: run it again with the description switched on
                c_len = c_pos; g_want_desc = true; g_replay = true;
                Violation v2; uint64_t l2; uint32_t s2, t2;
                run_once(part, v2, l2, s2, t2);
                g_replay = false;
                vdesc = g_desc;
                violated = true;
                break;
            }
            if(r != r_skip)
            {
                ++evals; steps += st; traces += tr; choices += static_cast<uint64_t>(c_pos);
                for(int i = 0; i < g_nout; ++i) if(outs.size() < 3000000) outs.insert(g_out[i]);
                for(int i = 0; i < g_nst; ++i) if(states.size() < 3000000) states.insert(g_st[i]);
                if(g_want_desc && g_desc_len) { samples.push_back(g_desc); next_sample = evals * 7 + 3; }
            }
            if(!advance()) break;
            if((++oidx & 63) == 0 && now() - pstart > share) { complete = false; break; }
        }
        fprintf(o, "%s{\"name\":\"%s\",\"rule\":\"%s\",\"evaluations\":%llu,\"choices\":%llu,\"steps\":%llu,\"traces\":%llu,\"complete\":%s,\"known_hits\":%llu,\"seconds\":%.2f,\"samples\":[",
            firstp ? "" : ",", part.name, jesc(part.rule).c_str(), static_cast<unsigned long long>(evals), static_cast<unsigned long long>(choices),
            static_cast<unsigned long long>(steps), static_cast<unsigned long long>(traces), complete ? "true" : "false",
            static_cast<unsigned long long>(g_known_hits - known0), now() - pstart);
        firstp = false;
        for(size_t i = 0; i < samples.size(); ++i) fprintf(o, "%s\"%s\"", i ? "," : "", jesc(samples[i].substr(0, 1500)).c_str());
        fprintf(o, "]");
        if(violated)
        {
            fprintf(o, ",\"violation\":{\"key\":\"%s\",\"msg\":\"%s\",\"case\":\"%s\",\"choices\":[", jesc(v.key).c_str(), jesc(v.msg).c_str(), jesc(vdesc).c_str());
            for(size_t i = 0; i < vch.size(); ++i) fprintf(o, "%s%u", i ? "," : "", vch[i]);
            fprintf(o, "]}");
        }
        fprintf(o, "}");
        // distinct sets, merged by the driver: records of (part, kind, hash)
        for(int kind = 0; kind < 2; ++kind)
        {
            const std::unordered_set<uint64_t>& s = kind ? states : outs;
            for(std::unordered_set<uint64_t>::const_iterator i = s.begin(); i != s.end(); ++i)
            {
                uint64_t rec[2] = { (static_cast<uint64_t>(p) << 8) | static_cast<uint64_t>(kind), *i };
                fwrite(rec, sizeof(rec), 1, ho);
            }
        }
    }
    fprintf(o, "],\"seconds\":%.2f}\n", now() - start);
    fclose(o);
    fclose(ho);
    return violated ? 1 : 0;
}
