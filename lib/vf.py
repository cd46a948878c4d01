"""Shared machinery of the checks: builds /repo in a scratch directory, records histories of the real
code, has TLC judge them and writes the evidence."""
import concurrent.futures as cf
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
ASM = "/opt/veriftools/java/bytecode/asm-9.7.1.jar"
NW = min(8, os.cpu_count() or 1)
JVM = ["-XX:TieredStopAtLevel=1", "-XX:+UseSerialGC", "-Xss8m"]
QUIET = ["-Dorg.apache.logging.log4j.simplelog.level=OFF"]


class Broken(Exception):
    """The check could not be carried out."""


def log4j_jar():
    # the version the repository's pom asks for, else any
    js = sorted(glob.glob("/root/.m2/repository/org/apache/logging/log4j/log4j-api/*/*.jar"))
    if not js:
        raise Broken("no log4j-api jar")
    try:
        pom = open(REPO + "/pom.xml").read()
        for j in js:
            if os.path.basename(os.path.dirname(j)) in pom:
                return j
    except OSError:
        pass
    return js[-1]


class Check:
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.tmp = tempfile.mkdtemp(prefix="vf-%s-" % prop)
        self.states = self.transitions = self.traces = self.distinct = 0
        self.samples, self.cov, self.assume = [], {}, []
        self.viol = []           # (reason, replay dict)
        self.known_hits = {}
        self.unrepro = 0
        self.procs = set()
        self.known = read_known(prop)
        self.jvm = []

    # ------------------------------------------------------------ processes
    def run(self, cmd, timeout, cwd=None, env=None, out=None):
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update(env or {})
        p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL,
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT if out is None else subprocess.DEVNULL,
                             text=True, start_new_session=True, errors="replace")
        self.procs.add(p)
        try:
            o, _ = p.communicate(timeout=timeout)
            return p.returncode, o
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            o, _ = p.communicate()
            return -9, o or ""
        finally:
            self.procs.discard(p)

    def close(self):
        for p in list(self.procs):
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
        shutil.rmtree(self.tmp, ignore_errors=True)

    def elapsed(self):
        return time.time() - self.t0

    # ------------------------------------------------------------ build
    def build(self):
        """Compiles the working tree of /repo and the harness; returns nothing, sets paths."""
        t = self.tmp
        self.log4j = log4j_jar()
        self.cls, self.ins, self.h = t + "/cls", t + "/ins", t + "/h"
        for d in (self.cls, self.ins, self.h):
            os.mkdir(d)
        src = [os.path.join(d, f) for d, _, fs in os.walk(REPO + "/src/main/java") for f in fs if f.endswith(".java")]
        c, o = self.run(["javac", "-nowarn", "-Xlint:none", "-g", "-d", self.cls, "-cp", self.log4j] + src, 120)
        if c:
            raise Broken("the repository does not compile:\n" + o[-3000:])
        res = REPO + "/src/main/resources"
        if os.path.isdir(res):
            shutil.copytree(res, self.cls, dirs_exist_ok=True)
        hs = glob.glob(VERIF + "/harness/src/**/*.java", recursive=True)
        c, o = self.run(["javac", "-nowarn", "-Xlint:none", "-d", self.h, "-cp",
                         ":".join([self.cls, self.log4j, ASM])] + hs, 120)
        if c:
            raise Broken("the harness does not compile against the repository:\n" + o[-3000:])
        c, o = self.run(["java"] + JVM + ["-cp", ":".join([self.h, self.log4j, ASM]), "vh.Instrument", self.cls, self.ins], 120)
        if c:
            raise Broken("instrumentation failed:\n" + o[-3000:])
        self.cp = ":".join([self.h, self.ins, self.log4j])
        self.cp_plain = ":".join([self.h, self.cls, self.log4j])
        self.spec = t + "/spec"
        shutil.copytree(VERIF + "/spec", self.spec)

    # ------------------------------------------------------------ TLC
    def tlc(self, module, cfg, env=None, timeout=300, workers=1, mem="1500m", cwd=None, pin=None, extra=(), c1=True,
            props=()):
        md = tempfile.mkdtemp(dir=self.tmp, prefix="md")
        cmd = ["java"] + (JVM if c1 else ["-XX:+UseParallelGC", "-Xss8m"]) + ["-Xmx" + mem, "-Djava.io.tmpdir=" + self.tmp] + list(props) + ["-cp", TLA, "tlc2.TLC", "-workers", str(workers),
               "-nowarning", "-noGenerateSpecTE", "-metadir", md, "-config", cfg] + list(extra) + [module]
        if pin is not None and shutil.which("taskset"):
            cmd = ["taskset", "-c", str(pin % (os.cpu_count() or 1))] + cmd
        c, o = self.run(cmd, timeout, cwd=cwd or self.spec, env=env)
        shutil.rmtree(md, ignore_errors=True)
        m = re.findall(r"([\d,]+) states generated.*?([\d,]+) distinct states found", o)
        gen, dis = (int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))) if m else (0, 0)
        return c, o, gen, dis

    # ------------------------------------------------------------ histories
    def record(self, main, args, outf, secs, pin):
        cmd = ["java"] + JVM + ["-Xmx1g"] + QUIET + self.jvm + ["-cp", self.cp, main] + args + ["out=" + outf]
        if shutil.which("taskset"):
            cmd = ["taskset", "-c", str(pin % (os.cpu_count() or 1))] + cmd
        c, o = self.run(cmd, secs + 60, out="drop")
        st = {}
        for line in o.splitlines():
            if line.startswith("{") and "scenarios" in line:
                st = json.loads(line)
        return c, st

    def judge(self, f, module="TraceCheck", cfg="TraceCheck.cfg", pin=None, tag="VIOL", env=None, timeout=400):
        """TLC over one file of histories. Returns (violations, states, transitions, n histories)."""
        lines = open(f).read().splitlines()
        if lines and not lines[-1].endswith("}"):
            lines.pop()
        res, states, trans, dropped = [], 0, 0, 0
        for attempt in range(4):
            if not lines:
                break
            with open(f, "w") as w:
                w.write("\n".join(lines) + "\n")
            c, o, gen, dis = self.tlc(module, cfg, env=dict(env or {}, PROP=self.prop, TRACES=f), timeout=timeout, pin=pin)
            states, trans = dis, gen
            found = [(int(m[1]), int(m[2]), int(m[3]), sorted(re.findall(r'"([^"]*)"', m[4]))) for m in
                     re.finditer(r'<<"%s", (\d+), (\d+), (\d+),\s*\{(.*?)\}>>' % tag, o, re.S)]
            und = len(re.findall(r'<<"OPEN", ', o))
            if und:
                self.cov["histories_left_undecided"] = self.cov.get("histories_left_undecided", 0) + und
            if "Model checking completed" in o or "No error has been found" in o:
                res = [(json.loads(lines[t - 1])["cfg"], mi, ev, rs) for t, mi, ev, rs in found]
                break
            # TLC could not evaluate one history: set it aside and go on
            m = re.findall(r"/\\ tid = (\d+)", o)
            if os.environ.get("VF_DEBUG"):
                print(o[-3000:])
            if not m:
                raise Broken("TLC failed:\n" + o[-3000:])
            bad = int(m[-1])
            dropped += 1
            self.cov["histories_not_evaluated"] = self.cov.get("histories_not_evaluated", 0) + 1
            if found:
                res = [(json.loads(lines[t - 1])["cfg"], mi, ev, rs) for t, mi, ev, rs in found]
            self.odd = lines[bad - 1]
            del lines[bad - 1]
        else:
            if not res:
                raise Broken("TLC cannot evaluate the histories; e.g. " + self.odd[:1500])
        return res, states, trans, len(lines)

    def histories(self, fams, secs, per_worker, per_scn=40, main="vh.Main", module="TraceCheck", cfg="TraceCheck.cfg",
                  offset=0, dfs=0):
        """Records histories of the given scenario families and judges them; confirmed violations
        are added to self.viol."""
        def work(i):
            f = "%s/tr%d-%d.nd" % (self.tmp, offset, i)
            k = i % len(fams)
            args = ["fams=" + ",".join(fams[k:] + fams[:k]), "seed=%d" % (self.seed * 1000003 + offset * 80000 + i),
                    "stride=%d" % NW, "secs=%s" % secs, "max=%d" % per_worker, "perScn=%d" % per_scn, "dfs=%d" % dfs]
            c, st = self.record(main, args, f, secs, i)
            if not os.path.exists(f) or (c and os.path.getsize(f) == 0):
                return None, st, "no histories (exit %s)" % c
            r = self.judge(f, module, cfg, pin=i)
            first = None
            if os.path.exists(f):
                with open(f) as x:
                    first = x.readline()[:1200]
                os.remove(f)
            return r, st, first
        with cf.ThreadPoolExecutor(NW) as ex:
            res = list(ex.map(work, range(NW)))
        self.collect(res, main, module, cfg)

    def collect(self, results, main, module, cfg, names=("scenarios", "runs", "decisions", "aborted", "failed")):
        found = {}
        for r, st, first in results:
            if r is None:
                self.cov.setdefault("recorder_problems", []).append(first)
                continue
            res, s, tr, n = r
            self.states += s
            self.transitions += tr
            self.traces += n
            for k in names:
                self.cov[k] = self.cov.get(k, 0) + st.get(k, 0)
            if first and len(self.samples) < 3:
                self.samples.append(first)
            for cfgd, mi, ev, rs in res:
                rid = "%s/%s/%s" % (cfgd["fam"], cfgd["seed"], cfgd["sched"])
                for reason in rs:
                    found.setdefault(reason, []).append((rid, ev))
        if self.traces == 0:
            raise Broken("no history was recorded: %s" % self.cov.get("recorder_problems"))
        for reason, l in found.items():
            if reason in self.known:
                self.known_hits[reason] = self.known_hits.get(reason, 0) + len(l)
                continue
            l.sort(key=lambda x: x[1])
            ok = self.confirm(main, module, cfg, reason, l[:6])
            if ok:
                self.viol.append((reason, dict(kind="history", main=main, jvm=self.jvm, module=module, cfg=cfg, id=ok[0], event=ok[1],
                                               also=[x[0] for x in l[1:5]], count=len(l))))
            else:
                self.unrepro += 1
        return found

    # ------------------------------------------------------------ behaviours of the specification
    def behaviours(self, scope, secs, tries=6, timeout=200, stride=1, extra=(), mem="3g", workers=NW):
        """Model checks the specification in a scope - every history it allows has the property - and follows
        every one of them in the real code; what comes out differently is judged like any other history."""
        f = "%s/b-%s.nd" % (self.tmp, scope)
        kind = scope.split("-")[0] if "-" in scope else ""
        mc, module = {"app": ("AppMC", "AppCheck"), "multi": ("MultiMC", "MultiCheck")}.get(kind, ("ContractMC", "TraceCheck"))
        c, o, gen, dis = self.tlc(mc, mc + ".cfg", timeout=timeout, workers=workers, mem=mem, c1=False, extra=extra,
                                  env=dict(SCOPE=scope, PROPS=self.prop, OUT=f, STRIDE=str(stride)))
        done = "Model checking completed. No error" in o or (extra and "Error" not in o)
        if "is violated" in o or "Error:" in o:
            raise Broken("the specification does not have the property in scope %s:\n%s" % (scope, o[-3000:]))
        self.states += dis or gen
        self.transitions += gen
        sc = dict(states=dis or gen, transitions=gen, complete=bool(done) and not extra)
        self.cov.setdefault("specification", {})[scope] = sc
        if not os.path.exists(f):
            return
        def work(i):
            g = "%s/d-%s-%d.nd" % (self.tmp, scope, i)
            args = ["in=" + f, "part=%d" % i, "parts=%d" % NW, "tries=%d" % tries, "secs=%d" % secs]
            c, st = self.record("vh.McRun", args, g, secs, i)
            if not st:
                return None, st, "behaviours of %s not replayed (exit %s)" % (scope, c)
            r = ([], 0, 0, 0)
            if os.path.exists(g) and os.path.getsize(g):
                r = self.judge(g, module, module + ".cfg", pin=i)
            r = (r[0], r[1], r[2], r[3] + st["followed"])
            return r, st, None
        with cf.ThreadPoolExecutor(NW) as ex:
            res = list(ex.map(work, range(NW)))
        for k in ("behaviours", "followed", "other", "runs"):
            sc[k] = sum(st.get(k, 0) for _, st, _ in res)
        os.remove(f)
        self.collect(res, "vh.Main", module, module + ".cfg", names=())

    def confirm(self, main, module, cfg, reason, l):
        """Runs the histories again: only what happens again is reported."""
        for _ in range(2):
            lst, f = self.tmp + "/re.txt", self.tmp + "/re.nd"
            with open(lst, "w") as w:
                w.write("\n".join(x[0] for x in l) + "\n")
            self.record(main, ["replays=" + lst], f, 60, 0)
            if not os.path.exists(f):
                continue
            res, _, _, _ = self.judge(f, module, cfg)
            for cfgd, mi, ev, rs in res:
                if reason in rs:
                    return "%s/%s/%s" % (cfgd["fam"], cfgd["seed"], cfgd["sched"]), ev
        return None

    # ------------------------------------------------------------ result
    def finish(self, level="model_checking"):
        ev = VERIF + "/evidence"
        os.makedirs(ev, exist_ok=True)
        cov = dict(self.cov)
        cov.update(states=self.states, transitions=self.transitions, traces_validated_against_impl=self.traces,
                   samples=self.samples or ["none"])
        if self.unrepro:
            cov["reports_not_reproduced"] = self.unrepro
        if self.known_hits:
            cov["known_findings_seen"] = self.known_hits
        json.dump(dict(property=self.prop, tier=self.tier, seed=self.seed, level=level, coverage=cov,
                       assumptions=self.assume, wall_s=round(self.elapsed(), 1), violations=len(self.viol)),
                  open("%s/%s.json" % (ev, self.prop), "w"), indent=1)
        for k, text in self.known.items():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
        if not self.viol:
            print("OK property=%s states=%d transitions=%d histories=%d wall=%.1fs" % (
                self.prop, self.states, self.transitions, self.traces, self.elapsed()))
            return 0
        rp = "%s/%s.replay.json" % (ev, self.prop)
        json.dump([dict(property=self.prop, reason=r, **d) for r, d in self.viol], open(rp, "w"), indent=1)
        for r, d in self.viol:
            print("  %s: %s" % (r, json.dumps(d)[:600]))
        print("VIOLATION property=%s replay=%s" % (self.prop, rp))
        return 1


def read_known(prop):
    """Known findings of a property: reason -> text."""
    r = {}
    try:
        for line in open(VERIF + "/known-findings.txt"):
            m = re.match(r"known: property=(\S+) reason=(\S+) (.*)", line)
            if m and m[1] == prop:
                r[m[2]] = m[3].strip()
    except OSError:
        pass
    return r
