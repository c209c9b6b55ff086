#!/usr/bin/env python3
"""Runs the check of one property: builds the current /repo with sanitizers, runs the
monitored workload of harness/<id>.cpp in several processes, writes evidence/<id>.json.

  run.py <property> [--tier quick|thorough] [--seed N] [--case K] [--n N] [--keep]

Exit status: 0 held, 1 violation (with a VIOLATION line), 2 the check could not be carried out.
"""
import argparse, glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VP_REPO", "/repo")
SRC = os.path.join(REPO, "gridutils")
HARN = os.path.join(HERE, "harness")
TOOLS = ["getbound", "getnodes", "gridbathy", "insertgrid", "setbathy", "subgrid", "xy2ij"]
SAN = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=address,undefined,float-cast-overflow",
       "-fno-sanitize-recover=all", "-fexceptions"]
PLAIN = ["-g", "-O2"]
TSAN = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=thread", "-fexceptions"]
WORK = ["-O1", "-g", "-fexceptions", "-fno-builtin", "-fsanitize-coverage=trace-pc"]
WRAP = ["-Wl," + ",".join("--wrap=" + x for x in ("malloc", "calloc", "realloc", "memcpy", "memmove", "memset"))]
MSAN = ["-O1", "-g", "-fno-omit-frame-pointer", "-fsanitize=memory", "-fno-sanitize-recover=all"]

# what a check needs besides the sanitized library: tools (sanitized tools), bathy (gridbathy with
# stand-ins for the nn and csa libraries), plain (tools as shipped), msan (MemorySanitizer tools)
NEEDS = {
    "C01": "tools", "C02": "tools", "C03": "", "C04": "tools", "C05": "", "C06": "tools", "C07": "tools",
    "C08": "tools", "C09": "tools", "C10": "tools", "C11": "tools", "C12": "", "C13": "", "C14": "",
    "C15": "tools", "C16": "tools", "C17": "tools", "C18": "tools", "C19": "tools", "C20": "tools bathy msan",
    "C21": "tools bathy plain helper", "C22": "", "C23": "tools bathy", "C24": "tools", "C25": "",
    "C26": "tools bathy plain msan", "C27": "tools", "C28": "kd", "C29": "tools bathy",
    "C30": "tsan", "C31": "work", "C32": "", "C33": "", "C34": "tools bathy",
}
LEVEL = {"C21": "fault_enumeration"}
IDLE = 90           # seconds without progress before a worker is considered stuck
RETRY = 120         # seconds for a stuck case when run again on its own


class Broken(Exception):
    pass


def sh(cmd, what, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        raise Broken("%s failed: %s\n%s" % (what, " ".join(cmd), p.stdout.decode("latin-1")[-4000:]))


def sh_all(jobs):
    """[(cmd, what)] in parallel"""
    ps = []
    ncpu = max(2, os.cpu_count() or 2)
    pend = list(jobs)
    err = None
    while pend or ps:
        while pend and len(ps) < ncpu:
            cmd, what = pend.pop(0)
            f = tempfile.TemporaryFile()
            ps.append((subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL), cmd, what, f))
        time.sleep(0.01)
        for q in list(ps):
            if q[0].poll() is not None:
                ps.remove(q)
                if q[0].returncode != 0:
                    q[3].seek(0)
                    err = err or "%s failed: %s\n%s" % (q[2], " ".join(q[1]), q[3].read().decode("latin-1")[-4000:])
                q[3].close()
    if err:
        raise Broken(err)


class Build:
    def __init__(self, tmp):
        self.tmp = tmp
        self.src = os.path.join(tmp, "src")
        os.mkdir(self.src)
        n = 0
        for f in os.listdir(SRC):
            p = os.path.join(SRC, f)
            if f == "test" or not os.path.isfile(p) or f.endswith((".o", ".t", ".a", ".so")):
                continue
            shutil.copy(p, self.src)
            n += f.endswith(".c")
        if n == 0:
            raise Broken("no sources in " + SRC)
        if not os.path.exists(os.path.join(self.src, "gridutilsconfig.h")):
            sh(["bash", "./configure"], "configure", cwd=self.src)
        self.progs, self.lib = [], []
        for f in sorted(glob.glob(self.src + "/*.c")):
            b = os.path.basename(f)[:-2]
            (self.progs if b in TOOLS else self.lib).append(b)

    def variant(self, name, cc, flags, tools, bathy):
        """compiles the library and the tools; returns jobs for objects, jobs for links"""
        d = os.path.join(self.tmp, name)
        os.mkdir(d)
        inc = ["-I", self.src]
        objs, jobs, links = [], [], []
        for b in self.lib:
            o = "%s/%s.o" % (d, b)
            jobs.append(([cc] + flags + inc + ["-w", "-c", "%s/%s.c" % (self.src, b), "-o", o], "compiling %s.c" % b))
            objs.append(o)
        stub = []
        if bathy:
            stub = [d + "/stubs.o"]
            jobs.append(([cc] + flags + inc + ["-I", HARN + "/stubs", "-w", "-c", HARN + "/stubs/stubs.c", "-o", stub[0]], "compiling stubs.c"))
        for p in self.progs:
            if p == "gridbathy" and not bathy or p != "gridbathy" and not tools:
                continue
            o = "%s/%s.o" % (d, p)
            jobs.append(([cc] + flags + inc + ["-I", HARN + "/stubs", "-w", "-c", "%s/%s.c" % (self.src, p), "-o", o], "compiling %s.c" % p))
            links.append(([cc] + flags + ["-o", "%s/%s" % (d, p), o] + (stub if p == "gridbathy" else []) + objs + ["-lm"], "linking " + p))
        return objs, jobs, links


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?", default="")
    ap.add_argument("--selftest", action="store_true", help="checks that the compilers needed are there")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
    ap.add_argument("--case", type=int, default=-1)
    ap.add_argument("--n", type=int, default=0)
    ap.add_argument("--keep", action="store_true")
    a = ap.parse_args()
    if a.selftest:
        return selftest()
    if a.prop not in NEEDS:
        raise Broken("no such property: " + a.prop)
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vp-%s-" % a.prop)
    try:
        rc = check(a, tmp, t0)
    finally:
        if a.keep:
            print("kept " + tmp)
        else:
            shutil.rmtree(tmp, ignore_errors=True)
    return rc


def selftest():
    tmp = tempfile.mkdtemp(prefix="vp-self-")
    try:
        with open(tmp + "/a.c", "w") as f:
            f.write("int main(void) { return 0; }\n")
        for cmd in (["gcc"] + SAN, ["g++", "-std=c++17", "-x", "c++"] + SAN, ["clang"] + MSAN):
            sh(cmd + [tmp + "/a.c", "-o", tmp + "/a"], "compiler test")
            sh([tmp + "/a"], "compiler test")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    print("compilers work")
    return 0


def excerpt(err):
    m = re.search(r"(ERROR: \w+Sanitizer.*|.*runtime error:.*|WARNING: (?:Memory|Thread)Sanitizer: .*)", err, re.S)
    s = m.group(1) if m else err[-1500:]
    return s[:1500]


def known_findings():
    out = []
    p = os.path.join(HERE, "known_findings.txt")
    for l in open(p):
        m = re.match(r"finding: property=(\S+) key=(\S+) match=/(.*?)/ (.*)", l)
        if m:
            out.append({"prop": m.group(1), "key": m.group(2), "re": re.compile(m.group(3), re.S), "text": m.group(4).strip(), "hit": False})
    return out


def check(a, tmp, t0):
    prop, thorough = a.prop, a.tier == "thorough"
    needs = NEEDS[prop].split()
    b = Build(tmp)
    jobs, links = [], []
    san = TSAN if "tsan" in needs else WORK if "work" in needs else SAN
    objs, j, l = b.variant("san", "gcc", san, "tools" in needs, "bathy" in needs)
    jobs += j
    links += l
    hobj = [tmp + "/h.o", tmp + "/hm.o"]
    hinc = ["-I", b.src, "-I", HARN]
    hfl = ["-std=c++17", "-O1", "-g", "-w"] + (["-fsanitize=thread"] if "tsan" in needs else [])
    jobs.insert(0, (["g++"] + hfl + hinc + ["-c", "%s/%s.cpp" % (HARN, prop.lower()), "-o", hobj[0]], "compiling the harness"))
    jobs.insert(0, (["g++"] + hfl + hinc + ["-c", HARN + "/main.cpp", "-o", hobj[1]], "compiling the harness"))
    if "plain" in needs:
        _, j, l = b.variant("plain", "gcc", PLAIN, True, "bathy" in needs)
        jobs += j
        links += l
    if "msan" in needs:
        _, j, l = b.variant("msan", "clang", MSAN, True, "bathy" in needs)
        jobs += j
        links += l
    if "helper" in needs:
        jobs.append((["gcc", "-O1", "-o", tmp + "/fsize", HARN + "/fsize.c"], "compiling fsize.c"))
    if "kd" in needs:           # the program at the end of kdtree.c
        os.mkdir(tmp + "/msan")
        for v, cc, fl in (("san", "gcc", SAN), ("msan", "clang", MSAN)):
            jobs.append(([cc] + fl + ["-w", "-DSTANDALONE", "-o", "%s/%s/kd" % (tmp, v), b.src + "/kdtree.c", "-lm"], "compiling kd"))
    links.append((["g++"] + ([] if "work" in needs else san) + ["-o", tmp + "/harness"] + hobj + objs + (WRAP if "work" in needs else []) + ["-lm"], "linking the harness"))
    sh_all(jobs)
    sh_all(links)
    tbuild = time.time() - t0

    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:allocator_may_return_null=1:max_allocation_size_mb=600:detect_stack_use_after_return=0"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=99"
    env["TSAN_OPTIONS"] = "halt_on_error=1:exitcode=99"
    env["LC_ALL"] = "C"
    base = [tmp + "/harness", "--seed", str(a.seed), "--bin", tmp + "/san"]
    if "plain" in needs:
        base += ["--plain", tmp + "/plain"]
    if "msan" in needs or "kd" in needs:
        base += ["--msan", tmp + "/msan"]
    if thorough:
        base.append("--thorough")
    n = a.n or int(subprocess.run([tmp + "/harness", "--ncases"] if not thorough else [tmp + "/harness", "--thorough", "--ncases"],
                                  stdout=subprocess.PIPE, env=env, check=True).stdout)
    nw = max(1, min(8, os.cpu_count() or 1))
    if a.case >= 0:
        nw = 1
    budget = 3000.0 if thorough else 420.0
    deadline = t0 + tbuild + budget

    viol = []           # {"case", "key", "msg"}
    notes = []
    tot = {"cases": 0, "evals": 0, "toolruns": 0, "counters": {}, "samples": [], "sigs": set(), "rule": ""}

    class Worker:
        def __init__(self, w):
            self.w, self.start, self.k, self.crashes = w, w, 0, 0
            self.dir = "%s/w%d" % (tmp, w)
            os.mkdir(self.dir)
            self.done = False
            self.launch()

        def launch(self):
            self.k += 1
            self.prog = "%s/progress" % self.dir
            open(self.prog, "w").write("-1")
            self.out = "%s/out.%d" % (self.dir, self.k)
            self.err = "%s/err.%d" % (self.dir, self.k)
            wk = "%s/work" % self.dir
            shutil.rmtree(wk, ignore_errors=True)
            os.mkdir(wk)
            cmd = base + ["--work", wk, "--out", self.out, "--progress", self.prog,
                          "--budget", "%.0f" % max(1, deadline - time.time())]
            cmd += ["--case", str(a.case)] if a.case >= 0 else ["--from", str(self.start), "--step", str(nw), "--n", str(n)]
            self.p = subprocess.Popen(cmd, env=env, stdin=subprocess.DEVNULL, stdout=open(self.err + ".o", "w"),
                                      stderr=open(self.err, "w"), start_new_session=True)
            self.last, self.t = "", time.time()

        def kill(self):
            try:
                os.killpg(self.p.pid, signal.SIGKILL)
            except OSError:
                pass
            self.p.wait()

        def cur(self):
            try:
                return int(open(self.prog).read().split()[0])
            except (ValueError, IndexError):
                return -1

        def collect(self):
            if not os.path.exists(self.out):
                return False
            d = json.load(open(self.out))
            for k in ("cases", "evals", "toolruns"):
                tot[k] += d[k]
            for k, v in d["counters"].items():
                tot["counters"][k] = tot["counters"].get(k, 0) + v
            tot["samples"] += d["samples"]
            tot["rule"] = d["rule"]
            s = open(self.out + ".sigs", "rb").read()
            tot["sigs"].update(s[i:i + 8] for i in range(0, len(s), 8))
            viol.extend(d["violations"])
            self.again = d["again"]
            return True

        def resume(self, c):
            """goes on behind a case that crashed or hung"""
            self.crashes += 1
            if a.case >= 0 or self.crashes >= 3 or time.time() > deadline:
                self.done = True
                return
            self.start = c + nw
            if self.start >= n:
                self.done = True
            else:
                self.launch()

        def poll(self):
            if self.done:
                return
            rc = self.p.poll()
            if rc is None:
                s = open(self.prog).read()
                if s != self.last:
                    self.last, self.t = s, time.time()
                elif time.time() - self.t > (RETRY if a.case >= 0 else IDLE):
                    c = self.cur()
                    self.kill()
                    if c < 0:
                        raise Broken("worker stuck before its first case")
                    # again on its own before anything is reported
                    wk = "%s/retry" % self.dir
                    os.makedirs(wk, exist_ok=True)
                    rout = "%s/retry.out" % self.dir
                    try:
                        q = subprocess.run(base + ["--work", wk, "--out", rout, "--case", str(c)], env=env, timeout=RETRY,
                                           stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE)
                        if q.returncode == 0 and os.path.exists(rout):
                            notes.append("case %d was slow, but ended when run again" % c)
                            viol.extend(json.load(open(rout))["violations"])
                        elif q.returncode == 3:
                            raise Broken("harness failed: " + q.stderr.decode("latin-1")[-2000:])
                        else:
                            viol.append({"case": c, "key": "crash", "msg": "status %d: %s" % (q.returncode, excerpt(q.stderr.decode("latin-1")))})
                    except subprocess.TimeoutExpired:
                        viol.append({"case": c, "key": "hang", "msg": "case %d did not end within %d s (twice)" % (c, RETRY)})
                    self.resume(c)
                return
            err = open(self.err, encoding="latin-1").read()
            if rc == 0 and self.collect():
                if self.again >= 0 and time.time() < deadline:
                    self.start = self.again
                    self.launch()
                else:
                    self.done = True
            elif rc == 3 or rc == 0:
                raise Broken("harness failed: " + err[-2000:])
            else:
                c = self.cur()
                if c < 0:
                    raise Broken("harness crashed before its first case: " + err[-2000:])
                viol.append({"case": c, "key": "crash", "msg": "status %d: %s" % (rc, excerpt(err))})
                self.resume(c)

    ws = [Worker(w) for w in range(nw)]
    try:
        while not all(w.done for w in ws):
            for w in ws:
                if not any(v["key"] == "hang" for v in viol):
                    w.poll()
            if any(v["key"] == "hang" for v in viol):
                break                           # each one takes minutes
            time.sleep(0.02)
    finally:
        for w in ws:
            if w.p.poll() is None:
                w.kill()

    known = [k for k in known_findings() if k["prop"] == prop]
    unknown = []
    for v in viol:
        for k in known:
            if k["key"] == v["key"] and k["re"].search(v["msg"]):
                k["hit"] = True
                break
        else:
            unknown.append(v)
    for k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["text"]))
    if not unknown and a.case < 0 and (tot["evals"] == 0 or len(tot["sigs"]) < 2):
        raise Broken("nothing observed: %d evaluations, %d distinct cases" % (tot["evals"], len(tot["sigs"])))

    cov = {"evaluations": tot["cases"], "oracle_evaluations": tot["evals"], "distinct_nontrivial": len(tot["sigs"]), "rule": tot["rule"],
           "samples": tot["samples"][:6], "cases_planned": n, "tool_runs": tot["toolruns"],
           "observed": dict(sorted(tot["counters"].items()))}
    if notes:
        cov["notes"] = notes
    ev = {"property": prop, "tier": a.tier, "seed": a.seed, "level": LEVEL.get(prop, "exploration"), "coverage": cov,
          "assumptions": ASSUME.get(prop, []) + ASSUME_ALL, "wall_s": round(time.time() - t0, 2), "violations": len(unknown)}
    os.makedirs(HERE + "/evidence", exist_ok=True)
    with open(HERE + "/evidence/%s.json" % prop, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    print("%s: %d cases, %d evaluations, %d distinct, %d tool runs, build %.1f s, total %.1f s" %
          (prop, tot["cases"], tot["evals"], len(tot["sigs"]), tot["toolruns"], tbuild, time.time() - t0))
    if unknown:
        os.makedirs(HERE + "/replay", exist_ok=True)
        for k, v in enumerate(sorted(unknown, key=lambda v: v["case"])[:5]):
            rp = HERE + "/replay/%s-%s-%d-%d.txt" % (prop, a.tier, a.seed, v["case"])
            with open(rp, "w") as f:
                f.write("property %s violated: %s\n%s\n\nreplay: python3 %s/run.py %s --tier %s --seed %d --case %d\n" %
                        (prop, v["key"], v["msg"], HERE, prop, a.tier, a.seed, v["case"]))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            print("  [%s] %s" % (v["key"], v["msg"][:600]))
        return 1
    return 0


ASSUME_ALL = ["holds on the executions produced by the workload (seed recorded); says nothing about inputs not generated",
              "gcc 13 AddressSanitizer and UndefinedBehaviorSanitizer, libc and libm are trusted"]
ASSUME = {}

if __name__ == "__main__":
    signal.signal(signal.SIGTERM, lambda *a: sys.exit(2))
    try:
        sys.exit(main())
    except Broken as e:
        print("ERROR: " + str(e))
        sys.exit(2)
