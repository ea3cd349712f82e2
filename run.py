#!/usr/bin/env python3
"""Builds one check from /repo's working tree, explores it on all cores, writes its evidence.

  run.py CHECK [--tier quick|thorough] [--only PART] [--jobs N]
  run.py --replay FILE
  run.py --setup            builds the shared objects and every check (setup_cmd)
"""
import argparse, concurrent.futures as cf, glob, hashlib, json, os, re, shutil, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
LIB = os.path.join(REPO, "src", "pe_lib")
BUILD = os.path.join(HERE, "build")
KNOWN = os.path.join(HERE, "known_findings.txt")
JOBS = int(os.environ.get("VERIF_JOBS", os.cpu_count() or 4))

SAN = ["-fsanitize=address,undefined", "-fno-sanitize=alignment,nonnull-attribute,vptr", "-fno-sanitize-recover=all",
       "-fno-omit-frame-pointer", "-ftrivial-auto-var-init=pattern", "-D_GLIBCXX_ASSERTIONS"]
LIBFLAGS = ["-std=c++11", "-O1", "-g1", "-fstrict-aliasing", "-w"] + SAN
MCFLAGS = ["-std=c++17", "-O1", "-g1", "-Wall", "-Wextra", "-I" + LIB, "-I" + os.path.join(HERE, "mc")] + SAN
ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=0:"
                        "max_malloc_fill_size=2048:malloc_fill_byte=203:quarantine_size_mb=8:handle_abort=1:"
                        "alloc_dealloc_mismatch=0:symbolize=1:malloc_context_size=4:detect_container_overflow=0",
           UBSAN_OPTIONS="halt_on_error=1:print_stacktrace=1:exitcode=99", LC_ALL="C.UTF-8")


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def read(p):
    with open(p, "rb") as f:
        return f.read()


def compile_one(src, flags, extra):
    """Object file for src, cached by content."""
    key = sha(read(src), src, " ".join(flags), extra)
    obj = os.path.join(BUILD, "obj", os.path.basename(src) + "." + key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++", *flags, "-c", src, "-o", tmp], capture_output=True, text=True)
        if r.returncode:
            raise SystemExit("build failed: %s\n%s" % (src, r.stderr[-4000:]))
        os.replace(tmp, obj)
    os.utime(obj)
    return obj


def build(check):
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    libh = sha(*[read(p) for p in sorted(glob.glob(LIB + "/*.h"))])
    mch = sha(*[read(p) for p in sorted(glob.glob(HERE + "/mc/*.h"))])
    jobs = [(p, LIBFLAGS, libh) for p in sorted(glob.glob(LIB + "/*.cpp"))]
    jobs += [(os.path.join(HERE, "mc", "mc.cpp"), MCFLAGS, libh + mch),
             (os.path.join(HERE, "checks", check + ".cpp"), MCFLAGS, libh + mch)]
    with cf.ThreadPoolExecutor(JOBS) as ex:
        objs = list(ex.map(lambda j: compile_one(*j), jobs))
    out = os.path.join(BUILD, "bin", check + "." + sha(*objs))
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        r = subprocess.run(["g++", *SAN, "-Wl,--wrap=iconv_open,--wrap=iconv_close", *objs, "-o", tmp], capture_output=True, text=True)
        if r.returncode:
            raise SystemExit("link failed\n" + r.stderr[-4000:])
        os.replace(tmp, out)
    prune()
    return out


def prune(limit=3 << 30):
    fs = []
    for p in glob.glob(BUILD + "/*/*"):
        try:
            st = os.stat(p)
            fs.append((st.st_mtime, st.st_size, p))
        except OSError:
            pass
    total = sum(f[1] for f in fs)
    for m, s, p in sorted(fs):
        if total <= limit or time.time() - m < 3600:
            break
        try:
            os.remove(p)
        except OSError:
            pass
        total -= s


def known_for(check):
    ks = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            m = re.match(r"KNOWN-FINDING: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == check:
                ks.append((m.group(2), m.group(3)))
    return ks


def crash_key(err):
    kind = "crash"
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        kind = m.group(1)
    else:
        m = re.search(r"runtime error: (.{0,60})", err)
        if m:
            kind = "ub:" + re.sub(r"[^\w]+", "-", re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1)))
        elif "HANG" in err:
            kind = "hang"
        elif "Assertion" in err:
            kind = "assertion"
    where = "?"
    for m in re.finditer(r"#\d+ 0x\w+ in (.*?) (/\S+?):\d+", err):
        if "/pe_lib/" in m.group(2):
            where = os.path.basename(m.group(2)) + ":" + re.sub(r"\(.*", "", m.group(1)).replace(" ", "_")
            break
    return kind + "@" + where


def interesting(err):
    lines = [l for l in err.splitlines() if l.strip()]
    return "\n".join(lines[:30])


def replay(binary, part, choices, tier):
    r = subprocess.run([binary, "--tier", tier, "--replay-part", part, "--choices", ",".join(map(str, choices))],
                       capture_output=True, text=True, env=ENV, errors="replace")
    if r.returncode == 0:
        return None
    if r.returncode == 1:
        m = re.search(r"FAIL key=(\S+)", r.stdout)
        return (m.group(1) if m else "?"), r.stdout
    return crash_key(r.stderr), r.stdout + interesting(r.stderr)


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("check", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--only")
    ap.add_argument("--replay")
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--jobs", type=int, default=JOBS)
    ap.add_argument("--deadline", type=float)
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    if a.setup:
        checks = sorted(os.path.basename(p)[:-4] for p in glob.glob(HERE + "/checks/*.cpp"))
        for c in checks[:1]:
            build(c)
        with cf.ThreadPoolExecutor(max(1, JOBS // 2)) as ex:
            list(ex.map(build, checks))
        print("built", len(checks), "checks")
        return 0
    if a.replay:
        j = json.load(open(a.replay))
        b = build(j["property"])
        r = replay(b, j["part"], j["choices"], j["tier"])
        print("reproduced:\n%s" % r[1] if r else "not reproduced")
        return 1 if r else 0

    check, tier = a.check, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    binary = build(check)
    tb = time.time() - t0
    deadline = a.deadline or (480 if tier == "quick" else 780)
    known = known_for(check)
    work = tempfile.mkdtemp(prefix="mc-%s-" % check)
    try:
        kf = os.path.join(work, "known")
        with open(kf, "w") as f:
            f.write("".join(k + "\n" for k, _ in known))
        procs = []
        for i in range(a.jobs):
            cmd = [binary, "--shard", "%d/%d" % (i, a.jobs), "--tier", tier, "--out", "%s/out%d" % (work, i),
                   "--shared", "%s/shared%d" % (work, i), "--known", kf, "--deadline", str(deadline)]
            if a.only:
                cmd += ["--only", a.only]
            procs.append(subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open("%s/err%d" % (work, i), "w"), env=ENV, cwd=work))
        names = subprocess.run([binary, "--list"], capture_output=True, text=True, env=ENV).stdout.split()
        found = None
        pending = dict(enumerate(procs))
        while pending and not found:
            time.sleep(0.05)
            for i, p in list(pending.items()):
                rc = p.poll()
                if rc is None:
                    continue
                del pending[i]
                if rc == 0:
                    continue
                err = open("%s/err%d" % (work, i), errors="replace").read()
                if rc == 1 and os.path.getsize("%s/out%d" % (work, i)):
                    v = [x for x in json.load(open("%s/out%d" % (work, i)))["parts"] if "violation" in x][0]
                    found = dict(part=v["name"], choices=v["violation"]["choices"], key=v["violation"]["key"],
                                 message=v["violation"]["msg"], case=v["violation"]["case"])
                elif rc == 3:
                    print("check error (shard %d):\n%s" % (i, err[-3000:]))
                    for q in pending.values():
                        q.kill()
                    return 2
                else:
                    d = read("%s/shared%d" % (work, i))
                    execs, part, n = struct.unpack_from("<QII", d, 0)
                    ch = list(struct.unpack_from("<%dH" % n, d, 16))
                    found = dict(part=names[part], choices=ch, key=crash_key(err), message=interesting(err) or "exit status %d" % rc, case="")
                break
        if found:
            for q in pending.values():
                q.kill()
                q.wait()
        # merge
        parts = {}
        hashes = {}
        for i in range(a.jobs):
            try:
                j = json.load(open("%s/out%d" % (work, i)))
            except (OSError, ValueError):
                continue
            for x in j["parts"]:
                m = parts.setdefault(x["name"], dict(evaluations=0, choices=0, steps=0, traces=0, complete=True, known_hits=0, samples=[], rule=x["rule"], seconds=0))
                for k in ("evaluations", "choices", "steps", "traces", "known_hits"):
                    m[k] += x[k]
                m["complete"] &= x["complete"]
                m["seconds"] = max(m["seconds"], x["seconds"])
                m["samples"] += x["samples"][:2]
            d = read("%s/out%d.hashes" % (work, i))
            for k, h in struct.iter_unpack("<QQ", d[:len(d) // 16 * 16]):
                hashes.setdefault(k, set()).add(h)
    finally:
        shutil.rmtree(work, ignore_errors=True)

    outc = {}
    stat = {}
    for k, s in hashes.items():
        (stat if k & 255 else outc)[names[k >> 8]] = len(s)
    level = "exploration"
    try:
        for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]:
            if c["property"] == check:
                level = c["level"]
    except (OSError, ValueError):
        pass
    evals = sum(m["evaluations"] for m in parts.values())
    samples = []
    for n, m in parts.items():
        samples += [{"part": n, "case": s} for s in m["samples"][:3]]
    cov = dict(evaluations=evals, distinct_nontrivial=sum(outc.values()),
               rule="; ".join("%s: %s" % (n, m["rule"]) for n, m in parts.items()),
               samples=samples or [{"part": "-", "case": "none"}],
               choice_points=sum(m["choices"] for m in parts.values()),
               exhaustive=all(m["complete"] for m in parts.values()) and not found and not a.only,
               parts={n: dict(evaluations=m["evaluations"], distinct=outc.get(n, 0), states=stat.get(n, 0), transitions=m["steps"],
                              traces=m["traces"], complete=m["complete"], known_hits=m["known_hits"], seconds=m["seconds"]) for n, m in parts.items()})
    if level == "model_checking":
        cov["states"] = sum(stat.values())
        cov["transitions"] = sum(m["steps"] for m in parts.values())
        cov["traces_validated_against_impl"] = sum(m["traces"] for m in parts.values())
    ev = dict(property=check, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=["single-threaded library; every execution runs the real code built with AddressSanitizer and UndefinedBehaviorSanitizer (alignment excluded: the library reads packed file structures in place on x86-64)",
                           "bounds are those of the parts listed under coverage.parts and described in DESIGN.md; behaviour outside them is not covered",
                           "requests for more than 64 MB in one allocation fail with bad_alloc"],
              wall_s=round(time.time() - t0, 2), violations=1 if found else 0)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", check + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    if a.v or not found:
        for n, m in parts.items():
            print("  %-28s evaluations=%-9d distinct=%-8d states=%-7d transitions=%-9d traces=%-8d %s%.1fs" %
                  (n, m["evaluations"], outc.get(n, 0), stat.get(n, 0), m["steps"], m["traces"], "" if m["complete"] else "INCOMPLETE ", m["seconds"]))
    for k, text in known:
        print("KNOWN-FINDING: property=%s %s" % (check, text))
    if not found:
        if evals == 0:
            print("check error: nothing was explored")
            return 2
        print("%s %s: held on %d executions (%.1fs, build %.1fs)" % (check, tier, evals, time.time() - t0, tb))
        return 0

    confirmed = None
    for _ in range(3):
        confirmed = replay(binary, found["part"], found["choices"], tier)
        if confirmed:
            break
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    path = os.path.join(HERE, "replays", "%s-%s.json" % (check, sha(found["part"], json.dumps(found["choices"]), tier)[:10]))
    with open(path, "w") as f:
        json.dump(dict(property=check, tier=tier, **found, reproduced=bool(confirmed), replay_output=confirmed[1] if confirmed else None,
                       how="python3 run.py --replay " + path), f, indent=1)
    print("part %s, key %s" % (found["part"], found["key"]))
    print("case: %s" % (found["case"] or (confirmed[1] if confirmed else "")))
    print(found["message"][:3000])
    if not confirmed:
        print("(not reproduced when replayed alone)")
    print("VIOLATION property=%s replay=%s" % (check, path))
    return 1


if __name__ == "__main__":
    sys.exit(main())
