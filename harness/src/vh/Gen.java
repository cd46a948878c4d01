package vh;

import static vh.Scn.END;
import static vh.Scn.NOOP;
import static vh.Scn.fire;
import static vh.Scn.gate;
import static vh.Scn.op;
import static vh.Scn.thr;

import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.Random;

/** Makes scenarios; every scenario is determined by its family and seed. */
final class Gen {

  final Random r;
  final Scn s = new Scn();

  Gen(String fam, long seed) {
    s.fam = fam;
    s.seed = seed;
    r = new Random(seed * 1_000_003L + fam.hashCode());
    for (int i = 0; i < 20; i++) {
      r.nextInt();
    }
  }

  static Scn make(String fam, long seed) {
    Gen g = new Gen(fam, seed);
    g.gen(fam);
    // a choice of its own: what the scenario does stays the same
    Random q = new Random(seed * 7919L + fam.hashCode());
    q.nextInt();
    for (Scn.M m : g.s.ms) {
      m.eqActs = q.nextInt(4) == 0;
      m.append = Math.max(0, q.nextInt(6) - 2);
      if (m.share) {
        m.append = m.append == Scn.LATE ? 0 : m.append;
        m.eqActs = false;
      }
    }
    return g.s;
  }

  int in(int lo, int hi) {
    return lo + r.nextInt(hi - lo + 1);
  }

  boolean p(double x) {
    return r.nextDouble() < x;
  }

  static final String[][] HOSTILE = {{"Aa", "BB", "AaAa", "BBBB", "AaBB", "BBAa"},
      {"", " ", "  ", "\t", "a", "A"}, {"state", "State", "state ", " state", "STATE", "st\u00e4te"},
      {"{}", "%s", "${x}", "null", "_end_", "END"}, {"UNINITIALISED", "_noop_", "NOOP", "_END", "END_",
      "_immediate"}, {"x".repeat(500), "x".repeat(501), "x".repeat(499) + "y", "y", "xy", "yx"},
      {"1", "01", "1.0", "+1", "-1", "0"}, {"a.b", "a-b", "a_b", "a b", "a/b", "ab"}};

  static final String[] HOSTILE_EV = {"Aa", "BB", "", " ", "e", "E", "{}", "null", "_Immediate_",
      "_END_", "immediate", "start", "error", "stop", "AaBB", "BBAa", "AaAa", "BBBB"};

  /** A machine with a random table. ends: probability that a mapping ends. */
  Scn.M machine(int nS, int nE, double ends, double noop, double unmapped, int actMax) {
    Scn.M m = new Scn.M();
    m.states = new String[nS];
    m.events = new String[nE];
    for (int i = 0; i < nS; i++) {
      m.states[i] = "S" + i;
    }
    for (int i = 0; i < nE; i++) {
      m.events[i] = "ev" + i;
    }
    m.init = r.nextInt(nS);
    for (int a = 0; a < nS; a++) {
      Map<Integer, Integer> row = new LinkedHashMap<>();
      for (int e = 0; e < nE; e++) {
        if (p(unmapped)) {
          continue;
        }
        double x = r.nextDouble();
        row.put(e, x < ends ? END : x < ends + noop ? NOOP : r.nextInt(nS));
      }
      if (row.isEmpty()) {
        row.put(r.nextInt(nE), r.nextInt(nS));
      }
      m.tab.put(a, row);
    }
    m.nen = new int[nS];
    m.nex = new int[nS];
    for (int i = 0; i < nS; i++) {
      m.nen[i] = actMax == 0 ? 0 : in(0, actMax);
      m.nex[i] = actMax == 0 ? 0 : in(0, actMax);
    }
    return m;
  }

  Scn.M simple(int nS, int nE) {
    return machine(nS, nE, 0, 0.1, 0.2, 1);
  }

  void clients(int phase, int n, int min, int max, java.util.function.Supplier<Scn.Op> f) {
    while (s.phases.size() <= phase) {
      s.phases.add(new ArrayList<>());
    }
    for (int i = 0; i < n; i++) {
      List<Scn.Op> l = new ArrayList<>();
      int k = in(min, max);
      for (int j = 0; j < k; j++) {
        l.add(f.get());
      }
      s.phases.get(phase).add(l);
    }
  }

  Scn.Op randFire(int mi) {
    return fire(mi, r.nextInt(s.ms.get(mi).events.length), true);
  }

  /** A random key of a callback that can occur while an event is handled. */
  String cbKey(Scn.M m) {
    List<String> k = new ArrayList<>();
    for (int i = 0; i < m.states.length; i++) {
      for (int j = 0; j < m.nen[i]; j++) {
        k.add("en:" + i + ":" + j);
      }
      for (int j = 0; j < m.nex[i]; j++) {
        k.add("ex:" + i + ":" + j);
      }
    }
    if (m.listener) {
      k.add("beg");
      k.add("end");
    }
    k.add("un");
    return k.get(r.nextInt(k.size()));
  }

  /** Makes some callbacks call back into the machine. */
  void callbacks(int mi, int n, String... kinds) {
    Scn.M m = s.ms.get(mi);
    for (int i = 0; i < n; i++) {
      String k = cbKey(m);
      String w = kinds[r.nextInt(kinds.length)];
      int o = r.nextInt(3);
      switch (w) {
        case "fire":
          if (p(0.5)) {
            m.on(k, o, fire(mi, r.nextInt(m.events.length), true));
          } else {
            m.on(k, o, fire(mi, r.nextInt(m.events.length), true),
                fire(mi, r.nextInt(m.events.length), true));
          }
          break;
        case "throw":
          m.on(k, o, thr(new String[]{"rt", "chk", "ise", "same"}[r.nextInt(4)]));
          break;
        case "err":
          m.on(k, o, thr("err"));
          break;
        default:
          m.on(k, o, op(w, mi));
      }
    }
  }

  static final String[] THREADS = {"my machine", "100%s", "%d-{}", " x ", "a-1", "100%", "$1\\"};

  void exec(Scn.M m) {
    double x = r.nextDouble();
    m.exec = x < 0.75 ? "none" : "single";
    if (x < 0.1) {
      m.threadName = THREADS[(int) (x * 10 * THREADS.length)];
    }
  }

  void gen(String fam) {
    Scn.M m;
    switch (fam) {
      case "table": // random tables, everything on
        m = machine(in(1, 4), in(1, 4), p(0.4) ? 0.08 : 0, 0.15, 0.2, in(0, 3));
        m.listener = p(0.85);
        exec(m);
        variants(m);
        s.ms.add(m);
        clients(0, in(1, 3), 1, 6, () -> randFire(0));
        if (p(0.5)) {
          callbacks(0, in(1, 2), "fire");
        }
        if (p(0.4)) {
          clients(1, in(1, 2), 1, 4, () -> randFire(0));
        }
        break;
      case "sis": // start in a given state
        m = machine(in(2, 4), in(1, 3), 0.05, 0.15, 0.2, 2);
        m.listener = p(0.85);
        variants(m);
        s.ms.add(m);
        s.startFirst = false;
        s.phases.add(new ArrayList<>());
        {
          Scn.Op o = op("sis", 0);
          o.s = r.nextInt(m.states.length);
          s.phases.get(0).add(List.of(o, op("obs", 0)));
        }
        clients(1, in(1, 2), 1, 5, () -> randFire(0));
        break;
      case "order": // many threads, many events, backlog
        m = machine(in(1, 3), in(2, 4), 0, 0.1, 0.2, 1);
        exec(m);
        s.ms.add(m);
        if (p(0.3)) {
          m.strat = "ddcfg";
        }
        if (p(0.2) && !m.strat.equals("ddcfg")) {
          m.strat = "builder";
        }
        clients(0, in(1, 4), 2, 8, () -> randFire(0));
        if (p(0.6)) {
          callbacks(0, in(1, 3), "fire");
        }
        if (p(0.5)) {
          hold(m);
          clients(1, in(1, 4), 1, 5, () -> randFire(0));
        }
        if (p(0.25)) {
          int k = r.nextInt(2);
          m.exec = k == 0 ? m.exec : "none";
        }
        break;
      case "names": // unique event names and no payloads
      {
        int n = in(6, 14);
        m = new Scn.M();
        m.states = new String[]{"S0", "S1"};
        m.events = new String[n];
        m.nen = new int[]{1, 0};
        m.nex = new int[]{0, 1};
        m.init = 0;
        for (int i = 0; i < n; i++) {
          m.events[i] = "n" + i;
        }
        for (int a = 0; a < 2; a++) {
          Map<Integer, Integer> row = new LinkedHashMap<>();
          for (int e = 0; e < n; e++) {
            if (!p(0.2)) {
              row.put(e, p(0.2) ? NOOP : r.nextInt(2));
            }
          }
          if (row.isEmpty()) {
            row.put(0, 0);
          }
          m.tab.put(a, row);
        }
        m.freshEvents = true;
        s.ms.add(m);
        int c = in(1, 3);
        int[] next = {0};
        clients(0, c, n / c, n / c, () -> fire(0, next[0]++ % n, p(0.2)));
        if (p(0.5)) {
          hold(m);
        }
        break;
      }
      case "burst": // a long backlog
        m = machine(2, 3, 0, 0.1, 0.2, 1);
        s.ms.add(m);
        hold(m);
        clients(0, in(1, 2), 10, 35, () -> randFire(0));
        clients(1, 1, 1, 3, () -> randFire(0));
        break;
      case "pool": // executors with several workers
        m = machine(in(1, 2), in(1, 3), 0, 0.2, 0.2, 1);
        m.exec = "pool" + in(2, 3);
        s.ms.add(m);
        clients(0, in(1, 3), 1, 5, () -> randFire(0));
        break;
      case "stop": // stop from outside and inside
        m = machine(in(1, 3), in(1, 3), 0, 0.1, 0.15, 2);
        m.listener = p(0.8);
        exec(m);
        s.ms.add(m);
        if (p(0.3)) {
          s.startFirst = false;
          clients(0, 1, 1, 1, () -> op("start", 0));
        }
        clients(0, in(1, 2), 1, 4, () -> p(0.1) ? op("obs", 0) : randFire(0));
        clients(0, 1, 1, 2, () -> op("stop", 0));
        clients(0, 1, 1, 2, () -> op("obs", 0));
        if (p(0.3)) {
          callbacks(0, 1, "stop", "obs", "fire");
        }
        clients(1, 1, 1, 3, () -> p(0.4) ? op("obs", 0) : randFire(0));
        break;
      case "stopin": // stop called by callbacks
        m = machine(in(1, 3), in(1, 3), 0, 0.1, 0.15, 2);
        exec(m);
        s.ms.add(m);
        callbacks(0, in(1, 2), "stop");
        callbacks(0, 1, "fire", "obs");
        clients(0, in(1, 3), 1, 4, () -> randFire(0));
        clients(1, 1, 1, 3, () -> p(0.4) ? op("obs", 0) : randFire(0));
        break;
      case "start": // starts racing fires
        m = machine(in(1, 3), in(1, 3), 0, 0.1, 0.15, 1);
        m.nen[m.init] = in(0, 2);
        s.ms.add(m);
        s.startFirst = false;
        if (p(0.2)) {
          clients(0, 1, 1, 2, () -> randFire(0));
          clients(1, 1, 1, 2, () -> op("start", 0));
          clients(1, in(0, 1), 1, 2, () -> randFire(0));
        } else {
          clients(0, in(1, 2), 1, 2, () -> startOp(m));
          clients(0, in(1, 2), 1, 3, () -> p(0.3) ? op("obs", 0) : randFire(0));
        }
        if (p(0.3)) {
          m.on("en:" + m.init + ":0", 0, p(0.7) ? fire(0, r.nextInt(m.events.length), true)
              : op("start", 0));
        }
        if (p(0.2)) {
          m.on("beg", 0, p(0.7) ? fire(0, r.nextInt(m.events.length), true) : op("start", 0));
        }
        clients(2, 1, 1, 3, () -> p(0.3) ? startOp(m) : randFire(0));
        break;
      case "badstart": // the initial entry fails
        m = machine(in(1, 2), in(1, 2), 0, 0.1, 0.15, 1);
        m.nen[m.init] = in(1, 2);
        s.ms.add(m);
        s.startFirst = false;
        m.on(p(0.5) ? "en:" + m.init + ":0" : p(0.5) ? "beg" : "end", 0, thr(p(0.5) ? "rt" : "ise"));
        clients(0, in(1, 2), 1, 2, () -> startOp(m));
        clients(0, in(0, 1), 1, 2, () -> randFire(0));
        clients(1, 1, 1, 3, () -> p(0.3) ? startOp(m) : randFire(0));
        break;
      case "ends": // every way of ending
        ends();
        break;
      case "fail": // exceptions
        m = machine(in(1, 3), in(1, 3), 0.03, 0.15, 0.2, 2);
        m.listener = p(0.8);
        exec(m);
        s.ms.add(m);
        callbacks(0, in(1, 3), "throw", "throw", "throw", "err");
        if (p(0.3)) {
          m.on("exc", r.nextInt(2), thr(p(0.7) ? "rt" : "err"));
        }
        if (p(0.2)) {
          m.on("exc", r.nextInt(2), fire(0, r.nextInt(m.events.length), true));
        }
        if (p(0.15)) {
          m.strat = "ddcfg";
        }
        clients(0, in(1, 2), 2, 6, () -> randFire(0));
        clients(1, 1, 1, 3, () -> randFire(0));
        break;
      case "wrap": // wrapped actions
        m = machine(in(1, 2), in(1, 3), 0.03, 0.1, 0.1, 3);
        s.ms.add(m);
        for (int i = 0; i < m.states.length; i++) {
          for (String k : new String[]{"en", "ex"}) {
            int n = k.equals("en") ? m.nen[i] : m.nex[i];
            for (int j = 0; j < n; j++) {
              String key = k + ":" + i + ":" + j;
              if (p(0.7)) {
                m.wrap.add(key);
                if (p(0.25)) {
                  m.on("h:" + key, r.nextInt(2), thr(p(0.7) ? "rt" : "err"));
                }
                if (p(0.15)) {
                  m.on("h:" + key, r.nextInt(2), fire(0, r.nextInt(m.events.length), true));
                }
              }
              for (int q = 0; q < 3; q++) {
                if (p(0.35)) {
                  m.on(key, q, thr(new String[]{"rt", "chk", "ise", "err", "same", "same"}[r.nextInt(6)]));
                }
              }
            }
          }
        }
        clients(0, in(1, 2), 2, 6, () -> randFire(0));
        break;
      case "bound":
        m = machine(in(1, 2), in(1, 3), 0, 0.2, 0.2, 1);
        exec(m);
        s.ms.add(m);
        {
          double x = r.nextDouble();
          if (x < 0.7) {
            m.bound = in(1, 4);
          } else if (x < 0.85) {
            m.cap = in(1, 3);
          } else {
            m.bound = p(0.5) ? 0 : p(0.5) ? -1 : -5;
          }
          if (p(0.2) && m.cap == 0) {
            m.userQueue = true;
          }
        }
        if (p(0.7)) {
          hold(m);
        }
        clients(0, in(1, 4), 1, 4, () -> randFire(0));
        if (p(0.4)) {
          callbacks(0, 1, "fire");
        }
        clients(1, in(1, 3), 1, 4, () -> randFire(0));
        if (p(0.3)) {
          clients(2, 1, 1, 4, () -> randFire(0));
        }
        break;
      case "dup":
        m = machine(in(1, 2), in(1, 3), 0, 0.2, 0.2, 1);
        m.strat = "ddcfg";
        exec(m);
        s.ms.add(m);
        if (p(0.7)) {
          hold(m);
        }
        if (p(0.15)) {
          m.userQueue = true;
        }
        clients(0, in(1, 4), 1, 4, () -> randFire(0));
        if (p(0.4)) {
          callbacks(0, 1, "fire");
        }
        clients(1, in(1, 3), 1, 3, () -> randFire(0));
        break;
      case "dupburst": // many names waiting
      case "boundburst": // a large bound
      {
        boolean dd = fam.equals("dupburst");
        int n = dd ? in(15, 75) : 3;
        int cap = in(15, 75);
        m = machine(1, n, 0, 0.3, 0.1, 0);
        m.strat = dd ? "ddcfg" : "cfg";
        if (!dd) {
          m.bound = cap;
        }
        s.ms.add(m);
        hold(m);
        int[] next = {0};
        int k = dd ? n : cap;
        clients(0, 1, k - 2, k + 2, () -> fire(0, next[0]++ % n, true));
        clients(0, 1, 2, 4, () -> fire(0, r.nextInt(Math.max(1, Math.min(n, next[0]))), true));
        clients(1, 1, 1, 3, () -> randFire(0));
        break;
      }
      case "payload":
        payload();
        break;
      case "iso":
        iso();
        break;
      case "obs":
        m = machine(in(1, 3), in(1, 3), p(0.4) ? 0.1 : 0, 0.15, 0.2, 2);
        m.listener = p(0.8);
        exec(m);
        {
          double x = r.nextDouble();
          if (x < 0.2) {
            m.strat = "ddcfg";
          } else if (x < 0.4) {
            m.bound = in(1, 2);
          }
        }
        s.ms.add(m);
        s.startFirst = p(0.7);
        if (!s.startFirst) {
          clients(0, 1, 1, 1, () -> startOp(m));
        }
        callbacks(0, in(0, 3), "obs");
        if (p(0.5)) {
          hold(m);
        }
        clients(0, in(1, 3), 1, 4, () -> p(0.4) ? op("obs", 0) : randFire(0));
        clients(1, in(1, 2), 1, 3, () -> p(0.4) ? op("obs", 0) : p(0.08) ? op("stop", 0)
            : randFire(0));
        break;
      case "block": // a callback that blocks for ever while clients go on
        m = machine(in(1, 2), in(1, 2), 0, 0.2, 0.2, 1);
        m.threadName = p(0.5) ? null : p(0.5) ? THREADS[r.nextInt(THREADS.length)] : "T" + r.nextInt(100);
        exec(m);
        {
          double x = r.nextDouble();
          if (x < 0.2) {
            m.strat = "ddcfg";
          } else if (x < 0.4) {
            m.bound = in(1, 2);
          }
        }
        s.ms.add(m);
        holdFor(m, 15);
        clients(0, in(1, 3), 2, 5, () -> p(0.2) ? op("obs", 0) : p(0.07) ? op("stop", 0) : randFire(0));
        clients(1, in(1, 2), 1, 3, () -> p(0.2) ? op("obs", 0) : randFire(0));
        if (p(0.5)) {
          callbacks(0, 1, "fire", "obs");
        }
        break;
      case "blockrej": // the unexpected-flow listener blocks for ever on a client's thread
        m = machine(in(1, 2), in(1, 3), p(0.3) ? 0.15 : 0, 0.2, 0.2, 1);
        m.strat = p(0.5) ? "ddcfg" : "cfg";
        exec(m);
        if (p(0.8)) {
          m.bound = in(1, 2);
        } else {
          m.cap = in(1, 2);
        }
        s.ms.add(m);
        if (p(0.8)) {
          holdFor(m, 15);
        }
        s.startFirst = p(0.8);
        if (!s.startFirst) {
          m.on("bef", 0, gate(15));
          clients(0, 1, 1, 1, () -> randFire(0));
          clients(1, 1, 1, 1, () -> op("start", 0));
        }
        m.on("exc", 0, gate(15));
        if (p(0.4)) {
          m.on("exc", 1, fire(0, r.nextInt(m.events.length), true));
        }
        m.on("aft", 0, gate(15));
        clients(1, in(2, 3), 1, 3, () -> randFire(0));
        clients(2, in(1, 2), 1, 3, () -> p(0.2) ? op("obs", 0) : p(0.1) ? op("stop", 0) : randFire(0));
        break;
      case "lisset": // the listener is replaced by clients and from inside callbacks
        m = machine(in(1, 2), in(1, 3), p(0.2) ? 0.1 : 0, 0.15, 0.15, 1);
        m.lsv = true;
        m.listener = p(0.7);
        exec(m);
        s.ms.add(m);
        s.startFirst = p(0.6);
        if (!s.startFirst) {
          clients(0, 1, 1, 1, () -> op("start", 0));
        }
        for (int k = in(0, 3); k > 0; k--) {
          boolean l = m.listener;
          m.listener = true;
          String key = cbKey(m);
          m.listener = l;
          m.on(key, r.nextInt(3), p(0.7) ? setl() : p(0.5) ? thr("rt") : fire(0, r.nextInt(m.events.length), true));
        }
        clients(0, in(1, 2), 1, 3, () -> p(0.4) ? setl() : randFire(0));
        clients(0, 1, 1, 3, () -> p(0.6) ? setl() : randFire(0));
        clients(1, 1, 1, 3, () -> p(0.3) ? setl() : randFire(0));
        break;
      case "deflog": // nothing given for what is unexpected
        m = machine(in(1, 2), in(1, 3), p(0.3) ? 0.1 : 0, 0.15, 0.4, 1);
        m.logs = true;
        m.listener = p(0.5);
        for (int i = 0; i < m.states.length; i++) {
          m.states[i] = new String[]{"Amber", "Blue"}[i];
        }
        for (int i = 0; i < m.events.length; i++) {
          m.events[i] = new String[]{"Ping", "Quux", "Rota"}[i];
        }
        m.strat = new String[]{"builder", "default", "dd", "cfg", "ddcfg", "ddcfg", "cfg"}[r.nextInt(7)];
        if (m.strat.endsWith("cfg")) {
          exec(m);
          m.bound = p(0.3) ? in(1, 2) : -1;
          m.threadName = p(0.5) ? "Worker-Thread" : null;
        }
        s.ms.add(m);
        s.startFirst = p(0.6);
        if (!s.startFirst) {
          clients(0, 1, 1, 1, () -> op("start", 0));
        }
        callbacks(0, in(0, 2), "throw", "throw", "err", "fire", "fire");
        clients(0, in(1, 3), 1, 5, () -> p(0.04) ? op("stop", 0) : randFire(0));
        clients(1, in(1, 2), 1, 4, () -> p(0.05) ? op("stop", 0) : randFire(0));
        break;
      case "life": // machines set up by the lifecycle utility
        for (int k = p(0.3) ? 2 : 1; k > 0; k--) {
          Scn.M lm = new Scn.M();
          lm.life = true;
          lm.states = Scn.LIFE.clone();
          lm.events = Scn.LIFE_EV.clone();
          for (int[] x : Scn.LIFE_TAB) {
            lm.tab.computeIfAbsent(x[0], q -> new LinkedHashMap<>()).put(x[1], x[2]);
          }
          lm.nen = new int[5];
          lm.nex = new int[5];
          for (int i = 0; i < 5; i++) {
            lm.nen[i] = in(0, 3);
            lm.nex[i] = in(0, 1);
          }
          lm.listener = p(0.7);
          lm.strat = p(0.2) ? "ddcfg" : lm.strat;
          exec(lm);
          s.ms.add(lm);
        }
        s.startFirst = p(0.5);
        if (!s.startFirst) {
          for (int k = 0; k < s.ms.size(); k++) {
            Scn.Op o = op(p(0.3) ? "start" : "sis", k);
            o.s = r.nextInt(5);
            clients(0, 1, 1, 1, () -> o);
          }
        }
        if (p(0.4)) {
          callbacks(0, in(1, 2), "fire", "fire", "throw");
        }
        for (int k = 1, n = in(2, 4); k < n; k++) {
          clients(k, in(1, 2), 2, 8, () -> fire(r.nextInt(s.ms.size()), p(0.1) ? 4 : r.nextInt(4), false));
        }
        break;
      case "long": // a machine that has been running for long, failures and unmapped events all along
        m = machine(in(1, 3), in(1, 4), 0, 0.15, 0.2, 2);
        m.listener = p(0.7);
        exec(m);
        m.strat = p(0.3) ? "ddcfg" : m.strat;
        m.bound = p(0.2) ? in(1, 3) : m.bound;
        s.ms.add(m);
        for (int k = in(0, 2); k > 0; k--) {
          String key = cbKey(m);
          int every = in(1, 3);
          for (int o = 0; o < 40; o += every) {
            m.on(key, o, p(0.75) ? thr(new String[]{"rt", "chk", "ise", "same"}[r.nextInt(4)])
                : fire(0, r.nextInt(m.events.length), true));
          }
        }
        for (int k = 0, n = in(4, 9); k < n; k++) {
          clients(k, p(0.8) ? 1 : 2, 3, 8, () -> randFire(0));
        }
        clients(3, p(0.2) ? 1 : 0, 1, 1, () -> op(p(0.5) ? "start" : "obs", 0));
        break;
      case "wide": // many states, events and actions
        m = machine(in(3, 20), in(3, 12), p(0.2) ? 0.01 : 0, 0.1, 0.3, in(0, 2) * in(1, 5));
        m.listener = p(0.8);
        variants(m);
        s.ms.add(m);
        if (p(0.3)) {
          callbacks(0, in(1, 2), "fire", "throw");
        }
        clients(0, in(1, 2), 5, 16, () -> randFire(0));
        break;
      case "host": // hostile names
      {
        int nS = in(2, 5);
        int nE = in(2, 5);
        m = machine(nS, nE, 0.03, 0.1, 0.15, 1);
        String[] pool = HOSTILE[r.nextInt(HOSTILE.length)];
        List<String> names = new ArrayList<>(List.of(pool));
        java.util.Collections.shuffle(names, r);
        for (int i = 0; i < nS; i++) {
          m.states[i] = names.get(i);
        }
        names = new ArrayList<>(List.of(p(0.5) ? HOSTILE_EV : HOSTILE[r.nextInt(HOSTILE.length)]));
        java.util.Collections.shuffle(names, r);
        for (int i = 0; i < nE; i++) {
          m.events[i] = names.get(i);
        }
        m.freshStates = p(0.6);
        if (p(0.2)) {
          m.strat = "ddcfg";
        }
        s.ms.add(m);
        clients(0, in(1, 2), 3, 8, () -> fire(0, r.nextInt(nE), true));
        break;
      }
      default:
        throw new IllegalArgumentException(fam);
    }
  }

  Scn.Op setl() {
    Scn.Op o = op("setl", 0);
    o.e = r.nextInt(4);
    return o;
  }

  Scn.Op startOp(Scn.M m) {
    if (p(0.7)) {
      return op("start", 0);
    }
    Scn.Op o = op("sis", 0);
    o.s = r.nextInt(m.states.length);
    return o;
  }

  void variants(Scn.M m) {
    double x = r.nextDouble();
    if (x < 0.1) {
      m.customStates = true;
    } else if (x < 0.2) {
      m.customEvents = true;
    } else if (x < 0.4) {
      m.freshStates = true;
    }
  }

  /** The first callback of the first handled event blocks until phase 0 is over. */
  void hold(Scn.M m) {
    holdFor(m, 0);
  }

  void holdFor(Scn.M m, int g) {
    // the listener's begin number 0 is the initial entry when the machine is started by start()
    int first = 1;
    if (m.listener && p(0.6)) {
      m.on("beg", first, gate(g));
      m.on("un", 0, gate(g));
    } else {
      m.listener = true;
      m.on("end", first, gate(g));
      m.on("un", 0, gate(g));
    }
  }

  void ends() {
    Scn.M m = machine(in(1, 3), in(1, 3), 0.15, 0.1, 0.15, 1);
    m.listener = p(0.85);
    exec(m);
    // immediate and unconfigured targets
    int nS = m.states.length;
    if (p(0.7)) {
      String[] st = java.util.Arrays.copyOf(m.states, nS + 2);
      st[nS] = "Imm";
      st[nS + 1] = "Unc";
      m.states = st;
      m.nen = java.util.Arrays.copyOf(m.nen, nS + 2);
      m.nex = java.util.Arrays.copyOf(m.nex, nS + 2);
      m.nen[nS] = in(0, 2);
      m.nex[nS] = in(0, 1);
      m.nen[nS + 1] = in(0, 2);
      m.nex[nS + 1] = in(0, 1);
      m.imm.add(nS);
      for (Map<Integer, Integer> row : m.tab.values()) {
        row.replaceAll((e, t) -> p(0.3) ? nS + r.nextInt(2) : t);
      }
    }
    // a state that is configured but receives nothing: it does not end the machine
    int bare = r.nextInt(nS);
    if (p(0.25) && bare != m.init) {
      m.tab.put(bare, new LinkedHashMap<>());
    }
    s.ms.add(m);
    if (p(0.1)) {
      // the initial state itself ends
      m.tab.remove(m.init);
      m.imm.add(m.init);
      m.nen[m.init] = in(0, 2);
    } else if (p(0.35)) {
      // end reached while start is still running
      m.nen[m.init] = in(1, 2);
      int e = m.tab.get(m.init).keySet().iterator().next();
      if (p(0.6)) {
        m.tab.get(m.init).put(e, END);
      }
      m.on("en:" + m.init + ":0", 0, fire(0, e, true));
    } else if (p(0.1)) {
      m.nen[m.init] = 1;
      m.on("en:" + m.init + ":0", 0, op("stop", 0));
    }
    s.startFirst = p(0.5);
    if (!s.startFirst) {
      clients(0, 1, 1, 1, () -> op("start", 0));
    }
    clients(0, in(1, 2), 1, 4, () -> randFire(0));
    if (p(0.2)) {
      clients(0, 1, 1, 1, () -> op("stop", 0));
    }
    if (p(0.25)) {
      callbacks(0, 1, "fire", "obs");
    }
    clients(1, 1, 1, 4, () -> p(0.3) ? op("obs", 0) : randFire(0));
    clients(2, 1, 1, 3, () -> p(0.3) ? op("obs", 0) : randFire(0));
  }

  void payload() {
    Scn.M m = machine(in(1, 2), in(1, 3), 0, 0.2, 0.2, 1);
    exec(m);
    s.ms.add(m);
    double x = r.nextDouble();
    if (x < 0.2) {
      m.strat = "ddcfg";
    }
    if (p(0.1)) {
      m.customEvents = true;
    }
    boolean custom = m.customEvents;
    if (p(0.6)) {
      hold(m);
    }
    int nc = in(1, 3);
    while (s.phases.size() < 2) {
      s.phases.add(new ArrayList<>());
    }
    s.insts = nc * 2;
    for (int ph = 0; ph < 2; ph++) {
      for (int c = 0; c < nc; c++) {
        List<Scn.Op> l = new ArrayList<>();
        int k = in(1, 5);
        int[] ie = {r.nextInt(m.events.length), r.nextInt(m.events.length)};
        if (ph == 1 && !s.phases.get(0).isEmpty()) {
          // keep event names of instances
          ie = instEvents.get(c);
        } else {
          instEvents.add(ie);
        }
        for (int j = 0; j < k; j++) {
          int w = r.nextInt(2);
          int inst = c * 2 + w;
          Scn.Op f = fire(0, ie[w], p(0.6));
          f.inst = p(0.85) ? inst : -1;
          l.add(f);
          if (!custom && p(0.55)) {
            Scn.Op sp = new Scn.Op("setp", 0);
            sp.inst = inst;
            sp.pay = p(0.5);
            l.add(sp);
          }
        }
        s.phases.get(ph).add(l);
      }
    }
    if (custom) {
      // a client's own event object is handed over as it is: use each only once
      for (List<List<Scn.Op>> ph : s.phases) {
        for (List<Scn.Op> l : ph) {
          l.removeIf(o -> o.t.equals("setp"));
          l.forEach(o -> o.inst = -1);
        }
      }
    }
  }

  final List<int[]> instEvents = new ArrayList<>();

  void iso() {
    int n = in(2, 3);
    boolean same = p(0.5);
    boolean share = same && p(0.5);
    double x = r.nextDouble();
    String kind = x < 0.3 ? "builder" : x < 0.4 ? "default" : x < 0.5 ? "dd" : x < 0.75 ? "group"
        : x < 0.9 ? "bgroup" : "exec";
    int nS = in(1, 3);
    int nE = in(1, 3);
    for (int i = 0; i < n; i++) {
      Scn.M m = machine(nS, nE, i == 0 ? 0.08 : 0, 0.15, 0.2, 1);
      m.share = share;
      if (share && i > 0) {
        m.nen = s.ms.get(0).nen;
        m.nex = s.ms.get(0).nex;
      }
      if (!same) {
        for (int k = 0; k < nS; k++) {
          m.states[k] = "M" + i + "S" + k;
        }
      }
      switch (kind) {
        case "builder":
        case "default":
        case "dd":
          m.strat = p(0.8) ? kind : "cfg";
          break;
        case "group":
          m.strat = p(0.3) ? "ddcfg" : "cfg";
          m.cfgGroup = 0;
          if (s.ms.isEmpty()) {
            m.exec = p(0.5) ? "none" : "single";
            m.bound = p(0.3) ? in(1, 2) : -1;
          } else {
            m.bound = s.ms.get(0).bound;
            m.exec = s.ms.get(0).exec.equals("none") ? "none" : "shared";
          }
          break;
        case "bgroup":
          m.strat = "builder";
          m.builderGroup = 0;
          break;
        default:
          m.strat = p(0.3) ? "ddcfg" : "cfg";
          m.exec = "shared";
          m.execGroup = 0;
          m.bound = p(0.3) ? in(1, 2) : -1;
      }
      // every transition must be visible without the strategy's own callbacks
      m.listener = true;
      s.ms.add(m);
    }
    if (kind.equals("group")) {
      // one configuration object has one executor
      for (Scn.M m : s.ms) {
        if (!m.exec.equals("none")) {
          m.exec = "shared";
          m.execGroup = 0;
        }
      }
    }
    s.startFirst = p(0.8);
    if (!s.startFirst) {
      for (int i = 0; i < n; i++) {
        int k = i;
        clients(0, 1, 1, 1, () -> op("start", k));
      }
    }
    clients(0, in(1, 3), 2, 6, () -> share && p(0.6) ? fire(r.nextInt(n), r.nextInt(nE), false) : randFire(r.nextInt(n)));
    if (p(0.4)) {
      // one machine makes another one's events
      Scn.M m = s.ms.get(0);
      m.on(cbKey(m), r.nextInt(2), fire(1, r.nextInt(nE), true));
    }
    if (p(0.3)) {
      s.ms.get(0).on("end", 1, thr("rt"));
    }
    if (p(0.2)) {
      clients(0, 1, 1, 1, () -> op("stop", 0));
    }
    clients(1, in(1, 2), 1, 4, () -> p(0.2) ? op("obs", r.nextInt(n)) : randFire(r.nextInt(n)));
  }
}
