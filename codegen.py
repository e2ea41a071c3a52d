"""Stages that run generated code: makes template sets for this seed, passes
them through the real type generator, compiles what it wrote with sanitizers
and links it with the harness of the property."""
import glob, os, re, subprocess, sys


def ninja_path(run, *p):
    return os.path.join(run.BUILD, *p)


def prepare(b, pid, st, a, work, run):
    """Returns (exe, extra arguments, problems). Problems are (key, case,
    detail): template sets that the generator refused or whose code does not
    compile; the sets are left out of what is linked."""
    n = st["sets"][1 if a.tier == "thorough" else 0]
    flav, name = st["flavour"], st["exe"]
    tool = b.gen_tool()
    lib = b.lib(flav)
    sg = os.path.join(run.BUILD, "schemagen")
    b.lines.append("rule plain\n  command = clang++ $flags -MMD -MF $out.d $in -o $out\n  depfile = $out.d\n  deps = gcc")
    b.lines.append("build %s: plain %s\n  flags = -std=c++17 -O1 -w -I%s" % (sg, os.path.join(run.VERIF, "harness", "schemagen.cpp"), os.path.join(run.VERIF, "harness")))
    b.run([sg, tool], "gentool-" + flav)
    d = os.path.join(run.BUILD, "gen-%s-%s-%d" % (name, flav, a.seed))
    os.makedirs(d, exist_ok=True)
    for f in glob.glob(os.path.join(d, "*")):
        os.remove(f)
    subprocess.run([sg, str(a.seed), str(n), d], check=True)
    problems, ok = [], []
    for i in range(n):
        docs = sorted(os.path.basename(x) for x in glob.glob(os.path.join(d, "g%dd*.xml" % i)))
        text = "".join(open(os.path.join(d, x)).read() for x in docs)
        try:
            p = subprocess.run([tool] + docs, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=run.ENV, timeout=120)
            rc, out = p.returncode, p.stdout
        except subprocess.TimeoutExpired:
            rc, out = -9, "the type generator did not end"
        if rc != 0 or not all(os.path.exists(os.path.join(d, x[:-4] + e)) for x in docs for e in (".h", ".cpp", ".inl")):
            problems.append(("the type generator refused a valid template set, or failed", i, "exit status %s\n%s\n%s" % (rc, out[-4000:], text)))
            continue
        ok.append(i)
    flags = " ".join([f if f != "-std=c++14" else run.HARNESS_STD for f in run.BASE] + run.SAN[flav] + ["-DVF_GEN", "-I" + d])
    procs, bad = [], set()

    def reap(k):
        i, p, log = procs.pop(k)
        if p.wait() != 0:
            bad.add(i)
            out = open(log, errors="replace").read()
            text = "".join(open(x).read() for x in sorted(glob.glob(os.path.join(d, "g%dd*.xml" % i))))
            first = re.search(r"error: ([^\n]*)", out)
            problems.append(("the generated code does not compile", i, "%s\n%s\n%s" % (first.group(1) if first else "", out[:6000], text)))

    for i in ok:
        if len(procs) >= run.NCPU:
            reap(0)
        log = os.path.join(d, "glue_%d.log" % i)
        cmd = ["clang++"] + flags.split() + ["-ferror-limit=10", "-c", os.path.join(d, "glue_%d.cpp" % i), "-o", os.path.join(d, "glue_%d.o" % i)]
        procs.append((i, subprocess.Popen(cmd, stdout=open(log, "w"), stderr=subprocess.STDOUT), log))
    while procs:
        reap(0)
    ok = [i for i in ok if i not in bad]
    # the table of what compiled; gen_index keeps the numbers of the sets
    src = open(os.path.join(d, "gen_all.cpp")).read()
    for i in set(range(n)) - set(ok):
        src = src.replace("&gen_entry_%d" % i + ",", "nullptr,").replace("&gen_entry_%d}" % i, "nullptr}")
    open(os.path.join(d, "gen_all.cpp"), "w").write(src)
    b2 = run.Builder()
    b2.lib(flav)
    exe = b2.exe(name, flav, [os.path.join(run.VERIF, "harness", s) for s in st["sources"]] + [os.path.join(d, "gen_all.cpp")], list(st.get("flags", ())) + ["-DVF_GEN", "-I" + d])
    for k, l in enumerate(b2.lines):
        if l.startswith("build %s: ld " % exe):
            b2.lines[k] = l.replace(" " + lib, " " + " ".join(os.path.join(d, "glue_%d.o" % i) for i in ok) + " " + lib, 1)
    b2.run([exe], name + "-" + flav)
    return exe, [str(x) for x in st.get("args", [])], problems
