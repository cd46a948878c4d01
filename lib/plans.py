"""What each property's check does."""
import json, os, subprocess, sys
import vf

# scenario families whose histories decide a property: those that stress it most come first and often
FAMS = {
    "C01": "table table sis order ends fail wrap stop start host payload burst dupburst boundburst names dup bound obs iso stopin badstart block long wide",
    "C13": "iso",
    "C22": "host host host names wide",
    "C02": "table table sis order fail ends obs stopin wrap iso host payload long wide",
    "C03": "order table burst start dup bound payload stopin fail iso names sis long",
    "C04": "order names burst bound dup payload start fail stop table names order long",
    "C05": "order burst dupburst pool fail bound names table start payload iso stopin dup long",
    "C06": "blockrej stop stopin ends start obs iso block fail stop ends",
    "C07": "start start badstart sis table stop ends iso obs start fail wrap",
    "C08": "ends ends ends start stopin table fail ends obs stop",
    "C09": "fail fail badstart wrap table fail ends fail order iso long long",
    "C10": "blockrej bound bound bound obs block iso bound burst boundburst long",
    "C11": "dup dup dup order obs payload iso dup block dupburst long",
    "C12": "payload payload payload payload dup bound order start long",
    "C20": "block blockrej order table start stop iso bound pool",
    "C21": "obs obs obs stop ends start block iso bound badstart long",
    "C23": "wrap",
    "C25": "lisset",
    "C26": "deflog",
    "C27": "life",
}


# histories per worker and per scenario in a quick run, where the default is too dear
SIZE = {"C01": (650, 7), "C10": (1300, 20), "C11": (1300, 20), "C13": (900, 12), "C22": (1300, 8), "C25": (1300, 20), "C26": (850, 13), "C27": (900, 10)}


SCHED = [
    "Shared variables are assumed to be accessed at the points the instrumentation knows (fields, "
    "java.util.concurrent and monitors); weak-memory reorderings are not explored.",
    "Schedules are sampled: bounded preemption, random priorities and random walks."]


# scopes of ContractMC.tla: what is enumerated in a quick run, and in a thorough run in addition
SMALL = {
    "C01": "table0 start0 stop1", "C02": "table0 fail1", "C03": "order0 start0", "C04": "fires0 order0 start0",
    "C05": "fires0 order0", "C06": "stop0", "C07": "start0 start1", "C08": "ends0", "C09": "fail0 fail1",
    "C10": "bound0 bound1", "C11": "dup0 dup1", "C12": "order0 dup0", "C20": "order0 bound0", "C21": "obs0", "C23": "wrap0", "C25": "lis0 lis1 lisstart", "C26": "log0 log1 log2", "C27": "life0",
    "C15": "multi-seq multi-race multi-regs multi-inner multi-fail",
    "C16": "app-one app-inner", "C17": "app-fail app-inner", "C18": "app-one app-starts app-int0 app-int1", "C19": "app-err app-inner",
}
LARGE = {
    "C01": "table order3", "C02": "table fail", "C03": "order start", "C04": "order3 order", "C05": "order3 order",
    "C06": "stop stop2 stop1", "C07": "start start3", "C08": "ends", "C09": "fail", "C10": "bound", "C11": "dup", "C12": "order",
    "C20": "order", "C21": "obs stop0", "C23": "wrap", "C25": "lis lisfail", "C26": "log logstop", "C27": "life",
    "C15": "multi-race2 multi-inner2", "C16": "app-three app-two", "C17": "app-three app-fail2", "C18": "app-int app-int2 app-int3 app-long",
    "C19": "app-err2 app-inner2",
}
WALKS = {"C06": "walkstop", "C07": "walkstart", "C21": "walkstop", "C01": "walkstop", "C03": "walkstart",
         "C15": "multi-walk", "C16": "app-walk", "C17": "app-walk", "C18": "app-walk", "C19": "app-walk"}


def enumerate_(ck):
    for s in SMALL.get(ck.prop, "").split():
        ck.behaviours(s, 60)
    if ck.tier == "thorough" and ck.prop in SMALL:
        for n in range(3):
            if not ck.viol:
                ck.behaviours(WALKS.get(ck.prop, "walk"), 120, timeout=200, mem="6g",
                              extra=["-simulate", "num=%d" % 4000, "-depth", "300", "-seed", str(ck.seed * 100 + n)])
        for s in LARGE[ck.prop].split():
            if not ck.viol:
                ck.behaviours(s, 300, tries=4, timeout=900, stride=5, mem="12g")


def traces(ck):
    enumerate_(ck)
    fams = FAMS[ck.prop].split()
    size, per = SIZE.get(ck.prop, (1400, 25))
    if ck.tier == "thorough":
        n = 0
        while ck.elapsed() < 600 and not ck.viol:
            n += 1
            ck.histories(fams, 30, 4 * size, per_scn=[40, per, 120][n % 3], offset=n)
    else:
        ck.histories(fams, 12, size, per_scn=per)
    ck.assume += SCHED


def hist(fams, module, size, per, jvm=()):
    """A plan: histories of the given families judged with the given module."""
    def plan(ck):
        ck.jvm = list(jvm)
        enumerate_(ck)
        f = fams.split()
        kw = dict(module=module, cfg=module + ".cfg")
        if ck.tier == "thorough":
            n = 0
            while ck.elapsed() < 600 and not ck.viol:
                n += 1
                ck.histories(f, 30, 4 * size, per_scn=[40, per, 120][n % 3], offset=n, **kw)
        else:
            ck.histories(f, 12, size, per_scn=per, **kw)
        ck.assume += SCHED
    return plan


APP = "appseq appfail apprace appgate appint applong"


LOGGED = ["-Dlog4j2.loggerContextFactory=vh.LogFactory"]


def logged(ck):
    ck.jvm = list(LOGGED)
    traces(ck)


def names(ck):
    ck.histories(["eq"], 8, 30, per_scn=1, module="NamesCheck", cfg="NamesCheck.cfg", offset=1000)
    traces(ck)


def config(ck):
    """Every configuration of a small scope, and random longer ones, made and probed in the real code."""
    def gen(name, cfg, depth, maxmap, names, full, extra=()):
        f = "%s/%s.nd" % (ck.tmp, name)
        c, o, gen, dis = ck.tlc("ConfigGen", cfg, env=dict(OUT=f, MAXMAP=str(maxmap), DEPTH=str(depth)), mem="4g",
                                timeout=800, c1=False, extra=extra)
        if "Error" in o or not os.path.exists(f):
            raise vf.Broken("ConfigGen failed:\n" + o[-3000:])
        ck.states += dis or gen
        ck.transitions += gen
        if not ck.samples:
            with open(f) as x:
                ck.samples.append(x.readlines()[-1][:1500])
        for n in names:
            c, o = ck.run(["java"] + vf.JVM + vf.QUIET + ["-cp", ck.cp_plain, "vh.ConfRun", "in=" + f, "names=%d" % n,
                                                        "full=%d" % full], 600)
            st = [json.loads(l) for l in o.splitlines() if l.startswith('{"conf')]
            if not st:
                raise vf.Broken("ConfRun failed:\n" + o[-3000:])
            ck.traces += st[0]["machines"]
            for k, v in st[0].items():
                ck.cov[k] = ck.cov.get(k, 0) + v
            for l in o.splitlines():
                if l.startswith("DIFF "):
                    m = json.loads(l.split(" ", 2)[2])
                    ck.viol.append(("differs from Config.tla", dict(kind="config", names=n, what=m[:3000])))
                    break
        os.remove(f)

    gen("all", "ConfigGen.cfg", 0, 9, range(4), 1)
    gen("walks", "ConfigSim.cfg", 40, 9, [ck.seed % 4], 0,
        ["-simulate", "num=120", "-depth", "100", "-seed", str(ck.seed)])
    n = 0
    while ck.tier == "thorough" and ck.elapsed() < 600 and not ck.viol:
        n += 1
        gen("walks%d" % n, "ConfigSim.cfg", [30, 60, 100][n % 3], 9, [n % 4], 0,
            ["-simulate", "num=600", "-depth", "200", "-seed", str(ck.seed * 1000 + n)])
    ck.assume += ["Exhaustive for two states, two events and one initial state; three states and events by random walks.",
                  "Whether a state that already ends immediately may be made to end immediately again is left open."]


PLANS = {p: traces for p in FAMS}
PLANS["C14"] = config
PLANS.update({p: hist(APP, "AppCheck", 600 if p in ("C16", "C19") else 1200, 15) for p in ("C16", "C17", "C18", "C19")})
PLANS["C15"] = hist("multirace multirace multirace multiseq", "MultiCheck", 1200, 25)
PLANS["C22"] = names
PLANS["C26"] = logged
PLANS["C24"] = hist("logseq logrun applog", "LogCheck", 900, 15, LOGGED)


def replay(path):
    ck = vf.Check("replay", "quick")
    try:
        ck.build()
        for d in json.load(open(path)):
            print("#", d["property"], d["reason"], d.get("id", ""))
            if d["kind"] == "history":
                _, o = ck.run(["java"] + vf.JVM + vf.QUIET + d.get("jvm", []) + ["-cp", ck.cp, d["main"], "replay=" + d["id"]], 60)
                for i, l in enumerate(o.splitlines()):
                    print("%4d %s%s" % (i, "-> " if i == d["event"] else "   ", l[:400]))
        return 0
    finally:
        ck.close()


def setup():
    """Checks that everything needed is there: builds once and parses the specification."""
    ck = vf.Check("setup", "quick")
    try:
        ck.build()
        for f in sorted(os.listdir(ck.spec)):
            if f.endswith(".tla"):
                c, o = ck.run(["java", "-cp", vf.TLA, "tla2sany.SANY", f], 60, cwd=ck.spec)
                if c:
                    print(o)
                    return 1
        print("ok")
        return 0
    finally:
        ck.close()

_ENUM = ("TLA+ contract model checked with TLC, every behaviour of a scope followed in the real code, recorded histories judged by TLC",
         "TLC enumerates every history the contract allows in small scopes (property checked on each) and each is replayed in the real "
         "code; histories of generated scenarios under sampled schedules are judged by the property's TLA+ operator. "
         "Exhaustive in the scopes only; trusts the instrumentation's scheduling points (sequential consistency).")
_HIST = ("histories of the real code under controlled schedules, judged by TLC with the TLA+ specification",
         "Every recorded history is judged by TLC with the property's TLA+ operator or accepted by the specification. "
         "Sampled schedules and scenarios; trusts the instrumentation's scheduling points (sequential consistency).")
NOTES = {p: _ENUM if p in SMALL else _HIST for p in PLANS}
NOTES["C14"] = ("every configuration of a TLA+ specification (TLC) made and probed in the real code",
                "All call sequences over two states and two events up to equality of the configuration, every call refused or "
                "accepted as specified and every event fired in every state; random walks over three states and events.")
