#!/usr/bin/env python3
"""Builds /repo's working tree with sanitizers plus the harness of one
property, runs the property's cases in parallel, judges what the monitors
recorded, and writes /verif/evidence/<property>.json.

  run.py C01 --tier quick            the registered checks
  run.py C01 --case 17 [--seed 1]    re-run one case verbosely
  run.py --build                     build everything
"""
import argparse, glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SRC = os.path.join(REPO, "src")
NCPU = os.cpu_count() or 4

sys.path.insert(0, VERIF)
from props import PROPS  # noqa: E402

BASE = ["-std=c++14", "-DSIZEOF_VOID_P=8", "-DMFAST_STATIC_DEFINE", "-DMFAST_CODER_STATIC_DEFINE",
        "-DMFAST_JSON_STATIC_DEFINE", "-DMFAST_XML_PARSER_STATIC_DEFINE", "-DMFAST_SQLITE3_STATIC_DEFINE",
        "-I" + SRC, "-I" + os.path.join(VERIF, "harness"), "-w", "-g1", "-O1", "-fno-omit-frame-pointer"]
SAN = {
    "asan": ["-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr", "-fsanitize-address-use-after-scope"],
    "tsan": ["-fsanitize=thread"],
}
SAN["asan"].append("-DMFAST_VERIFY_ARENA")
SAN["xetra"] = SAN["asan"] + ["-DXETRA_FAST_SPECIFICATION"]
LIBS = ["-ltinyxml2", "-lsqlite3", "-lpthread"]
HARNESS_STD = "-std=c++17"


def fail_env(msg):
    print("CHECK-ERROR: " + msg)
    sys.exit(2)


def lib_sources(flavour):
    out = []
    for root, _d, files in os.walk(os.path.join(SRC, "mfast")):
        for f in sorted(files):
            if f.endswith(".cpp"):
                out.append(os.path.join(root, f))
    return sorted(out)


def ninja_escape(s):
    return s.replace("$", "$$").replace(" ", "$ ").replace(":", "$:")


class Builder:
    def __init__(self):
        self.lines = ["ninja_required_version = 1.5",
                      "rule cc\n  command = clang++ $flags -MMD -MF $out.d -c $in -o $out\n  depfile = $out.d\n  deps = gcc",
                      "rule ar\n  command = rm -f $out && ar crs $out $in",
                      "rule ld\n  command = clang++ $flags $in $libs -o $out"]
        self.libs = set()
        self.targets = []

    def lib(self, flavour):
        a = os.path.join(BUILD, flavour, "libmfast.a")
        if flavour in self.libs:
            return a
        self.libs.add(flavour)
        objs = []
        flags = " ".join(BASE + SAN[flavour])
        for s in lib_sources(flavour):
            o = os.path.join(BUILD, flavour, os.path.relpath(s, SRC).replace("/", "_") + ".o")
            self.lines.append("build %s: cc %s\n  flags = %s" % (o, ninja_escape(s), flags))
            objs.append(o)
        self.lines.append("build %s: ar %s" % (a, " ".join(objs)))
        return a

    def gen_tool(self):
        """fast_type_gen, unsanitized flavour is enough to produce code; the
        asan flavour is used so that its own errors show"""
        a = self.lib("asan")
        objs = []
        flags = " ".join(BASE + SAN["asan"])
        for s in sorted(glob.glob(os.path.join(SRC, "fast_type_gen", "*.cpp"))):
            o = os.path.join(BUILD, "asan", "gen_" + os.path.basename(s) + ".o")
            self.lines.append("build %s: cc %s\n  flags = %s" % (o, ninja_escape(s), flags))
            objs.append(o)
        exe = os.path.join(BUILD, "asan", "fast_type_gen")
        self.lines.append("build %s: ld %s %s\n  flags = %s\n  libs = %s" % (exe, " ".join(objs), a, " ".join(SAN["asan"]), " ".join(LIBS)))
        return exe

    def exe(self, name, flavour, sources, extra=()):
        a = self.lib(flavour)
        objs = []
        flags = " ".join([f if f != "-std=c++14" else HARNESS_STD for f in BASE] + SAN[flavour] + list(extra))
        for s in sources:
            o = os.path.join(BUILD, flavour, "h_" + name + "_" + os.path.basename(s) + ".o")
            self.lines.append("build %s: cc %s\n  flags = %s" % (o, ninja_escape(s), flags))
            objs.append(o)
        exe = os.path.join(BUILD, flavour, name)
        self.lines.append("build %s: ld %s %s\n  flags = %s\n  libs = %s" % (exe, " ".join(objs), a, " ".join(SAN[flavour]), " ".join(LIBS)))
        self.targets.append(exe)
        return exe

    def run(self, targets, tag):
        os.makedirs(BUILD, exist_ok=True)
        f = os.path.join(BUILD, "build-%s.ninja" % tag)
        with open(f, "w") as fh:
            fh.write("builddir = %s\n" % BUILD)
            fh.write("\n".join(self.lines) + "\n")
        p = subprocess.run(["ninja", "-C", BUILD, "-f", f] + list(targets), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode != 0:
            keep = [l for l in p.stdout.splitlines() if not l.startswith("[") and "clang++ " not in l]
            print("\n".join(keep)[-6000:])
            fail_env("build of %s failed" % tag)


ENV = dict(os.environ)
ENV["ASAN_OPTIONS"] = "detect_leaks=1:allocator_may_return_null=0:detect_stack_use_after_return=1:strict_string_checks=1:max_allocation_size_mb=2048:hard_rss_limit_mb=3500:handle_abort=1:symbolize=1:malloc_context_size=12:quarantine_size_mb=32"
ASAN_BASE = ENV["ASAN_OPTIONS"]
ENV["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
ENV["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=66:second_deadlock_stack=1:history_size=4"
ENV["LSAN_OPTIONS"] = "max_leaks=3"
sym = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18")
if sym:
    ENV["ASAN_SYMBOLIZER_PATH"] = ENV["TSAN_SYMBOLIZER_PATH"] = sym


def set_stage_env(st):
    """extra sanitizer options of a stage"""
    ENV["ASAN_OPTIONS"] = ASAN_BASE + (":" + st["asan"] if st.get("asan") else "")


def crash_key(err, rc):
    """Classify a process that did not end by itself."""
    kind = "exit status %d" % rc if rc >= 0 else "killed by signal %d" % -rc
    m = re.search(r"SUMMARY: (\w+): ([\w-]+)", err)
    if m:
        kind = m.group(1) + ": " + m.group(2)
    m = re.search(r"runtime error: ([^\n]*)", err)
    if m:
        kind = "undefined behaviour: " + re.sub(r"0x[0-9a-f]+|-?\d+", "N", m.group(1))[:90]
    m = re.search(r"Assertion `([^']*)' failed", err)
    if m:
        kind = "assertion failed: " + m.group(1)
    if "LeakSanitizer" in err:
        kind = "memory leak"
    if "VF-HANG" in err:
        kind = "hang"
    m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+)", err)
    if m:
        kind = "ThreadSanitizer: " + m.group(1).strip()
    frame = ""
    for line in err.splitlines():
        m = re.match(r"\s*#\d+ \S+ in (.*) (/\S+?):(\d+)", line)
        if m and m.group(2).startswith(SRC):
            fn = re.sub(r"\(.*", "", m.group(1))
            frame = "%s in %s" % (os.path.relpath(m.group(2), SRC), fn)
            break
    return kind + (" at " + frame if frame else "")


def load_known():
    """known-findings.txt: lines  known: property=<id> key=/<regex>/ <text>  and
    fixed: property=<id> <commit> <text> (which suppress nothing)."""
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=/(.*?)/ (.*)$", line.rstrip("\n"))
            if m:
                out.append((m.group(1), re.compile(m.group(2), re.S), m.group(3)))
    return out


class Worker:
    def __init__(self, exe, prop, seed, tier, frm, to, step, out, limit, budget, extra):
        self.a = (exe, prop, seed, tier, limit, budget, extra)
        self.frm, self.to, self.step, self.out = frm, to, step, out
        self.part = 0
        self.parts = []
        self.start(frm)

    def start(self, frm):
        exe, prop, seed, tier, limit, budget, extra = self.a
        o = "%s.%d" % (self.out, self.part)
        self.part += 1
        self.parts.append(o)
        self.cur = o
        self.err = open(o + ".err", "wb")
        self.p = subprocess.Popen([exe, "--prop", prop, "--seed", str(seed), "--tier", tier, "--from", str(frm), "--to", str(self.to),
                                   "--step", str(self.step), "--out", o, "--limit", str(limit), "--budget", str(budget)] + extra,
                                  stdout=subprocess.DEVNULL, stderr=self.err, env=ENV, start_new_session=True)

    def poll(self):
        return self.p.poll()


def read_progress(o):
    try:
        d = open(o + ".progress", "rb").read(16)
        return struct.unpack("<QQ", d)
    except Exception:
        return (0, 0)


def run_single(exe, prop, seed, tier, case, limit, extra, out, verbose=False):
    with open(out + ".err", "wb") as e:
        cmd = [exe, "--prop", prop, "--seed", str(seed), "--tier", tier, "--only", str(case), "--out", out, "--limit", str(limit)] + (["--verbose"] if verbose else []) + extra
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=e, env=ENV, start_new_session=True)
        try:
            rc = p.wait(timeout=limit * 2 + 60)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = -9
    return rc, open(out + ".err", errors="replace").read()


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--case", type=int)
    ap.add_argument("--cases", type=int)
    ap.add_argument("--stage")
    ap.add_argument("--build", action="store_true")
    a = ap.parse_args()
    t0 = time.time()
    if a.build:
        a.prop = None
    if not a.prop:
        for pid in sorted(PROPS):
            for st in PROPS[pid]["stages"]:
                if "prepare" not in st:
                    build_stage(pid, st, a)
        print("built in %.0f s" % (time.time() - t0))
        return 0
    pid = a.prop
    P = PROPS[pid]
    tier = "thorough" if a.tier == "thorough" else "quick"
    work = os.path.join(BUILD, "run-%s-%d" % (pid, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    viol, known_hits = [], {}
    tot = {"cases": 0, "evals": 0, "counters": {}, "samples": []}
    hashes = set()
    known = [k for k in load_known() if k[0] == pid]
    stage_info = []
    for st in P["stages"]:
        if a.stage and st["name"] != a.stage:
            continue
        ts = time.time()
        exe, extra, problems = build_stage(pid, st, a, work)
        set_stage_env(st)
        tb = time.time() - ts
        ncases = a.cases or st["cases"][1 if tier == "thorough" else 0]
        limit = st.get("limit", 30)
        budget = st.get("budget", (150, 540))[1 if tier == "thorough" else 0]
        rprop = pid + "/" + st["name"]
        if a.case is not None:
            rc, err = run_single(exe, rprop, a.seed, tier, a.case, limit * 4, extra, os.path.join(work, "single"), True)
            sys.stdout.write(err[-20000:])
            print("exit status", rc)
            continue
        nw = st.get("workers", NCPU)
        nw = max(1, min(nw, ncases))
        deadline = time.time() + budget + 4 * limit + 60
        ws = [Worker(exe, rprop, a.seed, tier, w, ncases, nw, os.path.join(work, "%s.w%d" % (st["name"], w)), limit, budget, extra) for w in range(nw)]
        crashes = []
        live = list(ws)
        ncrash = 0
        while live:
            for w in list(live):
                rc = w.poll()
                if rc is None:
                    if time.time() > deadline:
                        os.killpg(w.p.pid, signal.SIGKILL)
                        w.p.wait()
                        crashes.append((read_progress(w.cur)[0] - 1, -9, open(w.cur + ".err", errors="replace").read()))
                        live.remove(w)
                    continue
                w.err.close()
                case, done = read_progress(w.cur)
                if rc == 0 and done:
                    live.remove(w)
                    continue
                err = open(w.cur + ".err", errors="replace").read()
                if case == 0 or rc == 2:
                    print(err[-3000:])
                    fail_env("harness of %s did not start (status %s)" % (pid, rc))
                if done:
                    # the cases ended; the process failed at exit (leak or race report)
                    crashes.append((None, rc, err))
                    live.remove(w)
                    continue
                crashes.append((case - 1, rc, err))
                ncrash += 1
                nxt = case - 1 + w.step
                if nxt < w.to and ncrash < 24 and time.time() < ts + tb + budget:
                    w.start(nxt)
                else:
                    live.remove(w)
            time.sleep(0.02)
        # collect
        fails = []
        for w in ws:
            for o in w.parts:
                try:
                    s = json.load(open(o + ".stat"))
                    tot["cases"] += s["cases"]
                    tot["evals"] += s["evals"]
                    for k, v in s["counters"].items():
                        if k.startswith("max:"):
                            tot["counters"][k] = max(tot["counters"].get(k, 0), v)
                        else:
                            tot["counters"][k] = tot["counters"].get(k, 0) + v
                    tot["samples"] += s["samples"]
                    d = open(o + ".hash", "rb").read()
                    hashes.update(struct.unpack("<%dQ" % (len(d) // 8), d))
                except FileNotFoundError:
                    pass
                if os.path.exists(o + ".fail"):
                    for line in open(o + ".fail"):
                        try:
                            fails.append(json.loads(line))
                        except ValueError:
                            fails.append({"case": -1, "key": "unreadable failure record", "detail": line})
        if a.cases is None and not fails and not crashes and tot["evals"] == 0:
            fail_env("the workload of %s evaluated nothing" % pid)
        # confirm crashes and hangs by running the case alone
        found = (list(problems) if pid == "C22" else []) + [(f["key"], f["case"], f["detail"]) for f in fails]
        seen = set()
        for case, rc, err in crashes:
            key = crash_key(err, rc)
            if key in seen and len(seen) > 0:
                found.append((key, case, err[-6000:]))
                continue
            if case is not None:
                r2, e2 = run_single(exe, rprop, a.seed, tier, case, limit * 4, extra, os.path.join(work, "confirm"))
                if r2 == 0:
                    if "hang" in key or rc == -9:
                        print("note: case %s exceeded its time limit once, ended when run alone" % case)
                        continue
                    # state carried from earlier cases of the same process: still a violation
                    key = crash_key(err, rc)
                    e2 = err
                else:
                    key = crash_key(e2, r2)
                err = e2
            seen.add(key)
            found.append((key, case, err[-9000:]))
        for key, case, detail in found:
            hit = None
            for _p, rx, text in known:
                if rx.search(key + "\n" + detail):
                    hit = text
                    break
            if hit:
                known_hits[hit] = known_hits.get(hit, 0) + 1
            else:
                viol.append({"stage": st["name"], "key": key, "case": case, "detail": detail})
        stage_info.append({"stage": st["name"], "flavour": st["flavour"], "cases_planned": ncases, "build_s": round(tb, 1), "run_s": round(time.time() - ts - tb, 1), "workers": nw})
    if a.case is not None:
        shutil.rmtree(work, ignore_errors=True)
        return 0
    # evidence
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    rep_dir = os.path.join(VERIF, "evidence", "replay")
    if os.path.exists(os.path.join(rep_dir, "%s.txt" % pid)):
        os.remove(os.path.join(rep_dir, "%s.txt" % pid))
    replay = None
    bykey = {}
    for v in viol:
        bykey.setdefault((v["stage"], v["key"]), []).append(v)
    if viol:
        os.makedirs(rep_dir, exist_ok=True)
        replay = os.path.join(rep_dir, "%s.txt" % pid)
        with open(replay, "w") as f:
            for (stg, key), vs in bykey.items():
                f.write("== %s (stage %s): %d occurrences, cases %s\n" % (key, stg, len(vs), [x["case"] for x in vs][:12]))
                f.write("replay: VERIF_SEED=%d python3 %s/run.py %s --tier %s --stage %s --case %s\n" % (a.seed, VERIF, pid, tier, stg, vs[0]["case"]))
                f.write(vs[0]["detail"] + "\n\n")
    ev = P["evidence"]
    evidence = {
        "property": pid,
        "tier": tier,
        "seed": a.seed,
        "level": "exploration",
        "wall_s": round(time.time() - t0, 1),
        "coverage": {
            "evaluations": tot["evals"],
            "distinct_nontrivial": len(hashes),
            "rule": ev["rule"],
            "samples": tot["samples"][:4],
            "cases": tot["cases"],
            "stages": stage_info,
            "observed": dict(sorted(tot["counters"].items())),
            "known_findings_seen": known_hits,
            "violations": [{"key": k[1], "stage": k[0], "count": len(v)} for k, v in bykey.items()],
        },
        "technique": "runtime monitoring and sanitizers: " + P["technique"],
    }
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(evidence, f, indent=1)
    shutil.rmtree(work, ignore_errors=True)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (pid, k[2]))
    print("%s: %d cases, %d evaluations, %d distinct non-trivial, %.0f s" % (pid, tot["cases"], tot["evals"], len(hashes), time.time() - t0))
    if viol:
        for (stg, key), vs in list(bykey.items())[:12]:
            print("  violated (%s): %s  [%d times]" % (stg, key, len(vs)))
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        return 1
    return 0


def build_stage(pid, st, a, work=None):
    b = Builder()
    src = [os.path.join(VERIF, "harness", s) for s in st["sources"]]
    extra_args = []
    if "prepare" in st:
        import importlib
        mod = importlib.import_module(st["prepare"])
        return mod.prepare(b, pid, st, a, work, sys.modules[__name__])
    exe = b.exe(st["exe"], st["flavour"], src, st.get("flags", ()))
    b.run([exe], st["exe"] + "-" + st["flavour"])
    return exe, [str(x) for x in st.get("args", [])], []


if __name__ == "__main__":
    sys.exit(main())
