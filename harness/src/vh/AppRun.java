package vh;

import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.service.AbstractAppContext;
import com.webotech.statemachine.service.AbstractAppService;
import com.webotech.statemachine.service.api.Subsystem;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.Random;

/** Experiments on an application service: its calls, subsystems, lifecycle notifications. */
final class AppRun extends Exp<AppRun.Op> {

  static final class Op {
    final String t;
    final String kind;
    final int gate;

    Op(String t, String kind, int gate) {
      this.t = t;
      this.kind = kind;
      this.gate = gate;
    }

    @Override
    public String toString() {
      return t + (t.equals("throw") ? "(" + kind + ")" : t.equals("gate") ? String.valueOf(gate) : "");
    }
  }

  static Op op(String t) {
    return new Op(t, "", 0);
  }

  final String fam;
  final long seed;
  final boolean exit;
  final boolean log;
  final boolean ints;
  final String name;
  final int n;
  final String threadName;
  final List<List<List<Op>>> phases = new ArrayList<>();
  /** "start:i" or "stop:i" -> per occurrence -> ops. */
  final Map<String, List<List<Op>>> acts = new LinkedHashMap<>();
  final Map<String, Integer> occ = new HashMap<>();
  private final Random r;
  private int excNo;
  private int errNo;
  Ctx ctx;
  App app;

  static final class Ctx extends AbstractAppContext<Ctx> {
    Ctx(String name) {
      super(name, new String[]{"a"});
    }
  }

  static final class App extends AbstractAppService<Ctx> {
    App(Ctx c, boolean exit) {
      super(c, exit);
    }

    App(Ctx c) {
      super(c);
    }
  }

  AppRun(String fam, long seed) {
    this.fam = fam;
    this.seed = seed;
    r = new Random(seed * 1_000_003L + fam.hashCode());
    for (int i = 0; i < 3; i++) {
      r.nextInt();
    }
    exit = r.nextInt(5) < 2;
    n = pick(0, 1, 2, 2, 3, 1, 2, 2, 3, 4 + r.nextInt(6));
    threadName = r.nextInt(3) == 0 ? Gen.THREADS[(int) Math.floorMod(seed, Gen.THREADS.length)] : null;
    log = fam.startsWith("applog");
    ints = fam.equals("appint");
    name = log ? LogRun.POOL[r.nextInt(LogRun.POOL.length)] : "theapp";
    gen();
  }

  /** From a history of the specification. */
  AppRun(McRun.Plan p) {
    fam = "mc";
    seed = 0;
    r = new Random(0);
    exit = (Boolean) p.cfg.get("exit");
    n = McRun.num(p.cfg.get("n"));
    threadName = null;
    log = false;
    ints = false;
    name = "theapp";
    List<List<Op>> cl = new ArrayList<>();
    for (List<Object[]> c : p.clients) {
      cl.add(ops(c));
    }
    phases.add(cl);
    p.acts.forEach((k, l) -> {
      List<List<Op>> x = new ArrayList<>();
      for (List<Object[]> c : l) {
        x.add(ops(c));
      }
      acts.put(k, x);
    });
  }

  private static List<Op> ops(List<Object[]> l) {
    List<Op> x = new ArrayList<>();
    for (Object[] o : l) {
      x.add(new Op((String) o[0], "rt", 0));
    }
    return x;
  }

  private int pick(int... x) {
    return x[r.nextInt(x.length)];
  }

  private boolean one(int k) {
    return r.nextInt(k) == 0;
  }

  private Op call() {
    if (ints && one(8)) {
      return op("int");
    }
    switch (r.nextInt(10)) {
      case 0:
      case 1:
      case 2:
        return op("start");
      case 3:
      case 4:
      case 5:
        return op("stop");
      case 6:
      case 7:
        return op("err");
      default:
        return op("st");
    }
  }

  private void on(String key, int k, Op... ops) {
    List<List<Op>> l = acts.computeIfAbsent(key, x -> new ArrayList<>());
    while (l.size() <= k) {
      l.add(List.of());
    }
    l.set(k, List.of(ops));
  }

  private Op thr() {
    return new Op("throw", new String[]{"rt", "ise", "chk", "same"}[r.nextInt(4)], 0);
  }

  private void act(int failPerMille, int callPerMille, int gates) {
    for (int i = 0; i < n; i++) {
      for (String k : new String[]{"start:", "stop:"}) {
        for (int c = 0; c < (fam.equals("applong") ? 12 : 4); c++) {
          List<Op> l = new ArrayList<>();
          if (r.nextInt(1000) < gates) {
            l.add(new Op("gate", "", r.nextInt(5)));
          }
          if (r.nextInt(1000) < callPerMille) {
            l.add(call());
          }
          if (r.nextInt(1000) < failPerMille) {
            l.add(thr());
          }
          if (!l.isEmpty()) {
            on(k + i, c, l.toArray(new Op[0]));
          }
        }
      }
    }
  }

  /** What a client can do next on an undisturbed app, mostly. */
  private void walk(int len) {
    String s = "new";
    for (int i = 0; i < len; i++) {
      List<Op> l = new ArrayList<>();
      Op o;
      if (one(4)) {
        o = call();
      } else {
        o = op(s.equals("started") ? one(4) ? "err" : "stop" : s.equals("stopped") ? one(4) ? "stop" : "start"
            : "start");
      }
      l.add(o);
      if (one(3)) {
        l.add(op("st"));
      }
      phases.add(List.of(l));
      // a guess, it need not be right
      s = o.t.equals("start") ? "started" : o.t.equals("st") ? s : "stopped";
    }
  }

  private void gen() {
    switch (fam) {
      case "applog":
      case "appseq":
        act(one(3) ? 150 : 0, one(4) ? 100 : 0, 0);
        walk(2 + r.nextInt(7));
        break;
      case "applong":
        act(one(2) ? 100 : 0, one(4) ? 50 : 0, 0);
        walk(12 + r.nextInt(14));
        break;
      case "appfail":
        act(pick(100, 250, 500), one(3) ? 150 : 0, 0);
        walk(2 + r.nextInt(7));
        break;
      case "appint":
      case "apprace": {
        act(one(3) ? 150 : 0, one(3) ? 150 : 0, one(4) ? 150 : 0);
        int k = 1 + r.nextInt(5);
        if (one(2)) {
          phases.add(List.of(List.of(op("start"))));
        }
        for (int i = 0; i < k; i++) {
          List<List<Op>> cl = new ArrayList<>();
          int c = 1 + r.nextInt(3);
          for (int j = 0; j < c; j++) {
            List<Op> l = new ArrayList<>();
            int m = 1 + r.nextInt(2);
            for (int q = 0; q < m; q++) {
              l.add(call());
            }
            cl.add(l);
          }
          phases.add(cl);
        }
        break;
      }
      case "appgate": {
        act(one(2) ? 150 : 0, one(3) ? 100 : 0, 400);
        phases.add(List.of(List.of(op("start"))));
        int k = 1 + r.nextInt(5);
        for (int i = 0; i < k; i++) {
          List<List<Op>> cl = new ArrayList<>();
          int c = 1 + r.nextInt(2);
          for (int j = 0; j < c; j++) {
            cl.add(one(3) ? List.of(call(), call()) : List.of(call()));
          }
          phases.add(cl);
        }
        break;
      }
      default:
        throw new IllegalArgumentException(fam);
    }
  }

  @Override
  String header(String sched) {
    Map<String, Object> m = new LinkedHashMap<>();
    m.put("fam", fam);
    m.put("seed", seed);
    m.put("sched", sched);
    Map<String, Object> a = new LinkedHashMap<>();
    a.put("id", 0);
    a.put("exit", exit);
    a.put("n", n);
    if (log) {
      a.put("names", List.of(name));
    }
    m.put("m", List.of(a));
    StringBuilder b = new StringBuilder();
    Rec.val(b, m);
    return b.toString();
  }

  @Override
  String describe() {
    return "app exit=" + exit + " subsystems=" + n + " acts=" + acts + " phases=" + phases;
  }

  @Override
  List<List<List<Op>>> phases() {
    return phases;
  }

  @Override
  boolean tryBuild() {
    try {
      ctx = new Ctx(name);
      List<Subsystem<Ctx>> l = new ArrayList<>();
      for (int i = 0; i < n; i++) {
        l.add(new Sub(i));
      }
      if (n > 0) {
        ctx.withSubsystems(l);
      }
      if (threadName != null) {
        ctx.withAppThreadName(threadName);
      }
      app = exit && seed % 2 == 0 ? new App(ctx) : new App(ctx, exit);
      if (log) {
        LogRun.sink(rec);
      } else {
        app.setStateMachineListener(new Lis());
      }
      return true;
    } catch (RuntimeException x) {
      rec.log("cfgfail", "m", 0, "x", Runner.exName(x));
      return false;
    }
  }

  static String s(State<?, ?> s) {
    return s == null ? "NULL" : s.getName();
  }

  private String cur() {
    return s(app.getLifecycleState());
  }

  private void thread() {
    Thread t = Thread.currentThread();
    if (rec.firstSeen(t)) {
      rec.log("thr", "m", 0, "dm", t.isDaemon(), "nm",
          t.getName().startsWith(threadName == null ? "app" : threadName));
    }
  }

  final class Lis implements StateMachineListener<Ctx, Void> {
    @Override
    public void onStateChangeBegin(State<Ctx, Void> f, StateEvent<Void> e, State<Ctx, Void> t) {
      note("beg", f, e, t);
    }

    @Override
    public void onStateChangeEnd(State<Ctx, Void> f, StateEvent<Void> e, State<Ctx, Void> t) {
      note("end", f, e, t);
    }

    private void note(String k, State<Ctx, Void> f, StateEvent<Void> e, State<Ctx, Void> t) {
      Sched.pre();
      thread();
      String c = Sched.still(AppRun.this::cur);
      rec.log(k, "m", 0, "fr", s(f), "e", e == null ? "NULL" : e.getName(), "to", s(t), "cur", c);
      Sched.y(-20);
    }
  }

  final class Sub implements Subsystem<Ctx> {
    final int i;

    Sub(int i) {
      this.i = i;
    }

    @Override
    public void start(Ctx c) {
      go("start", c);
    }

    @Override
    public void stop(Ctx c) {
      go("stop", c);
    }

    // in some apps all subsystems are equal
    @Override
    public boolean equals(Object o) {
      return seed % 4 == 1 ? o instanceof Sub : this == o;
    }

    @Override
    public int hashCode() {
      return seed % 4 == 1 ? 1 : i;
    }

    private void go(String w, Ctx c) {
      Sched.pre();
      thread();
      String key = w + ":" + i;
      int k;
      synchronized (occ) {
        k = occ.merge(key, 1, Integer::sum) - 1;
      }
      String s = Sched.still(AppRun.this::cur);
      rec.log("subC", "m", 0, "w", w, "i", i, "ok", c == ctx, "cur", s);
      String res = "ok";
      try {
        Sched.y(-20);
        List<List<Op>> l = acts.get(key);
        if (l != null && k < l.size()) {
          for (Op o : l.get(k)) {
            op(o);
          }
        }
      } catch (Sched.Kill x) {
        throw x;
      } catch (Throwable x) {
        res = Runner.exName(x);
        throw x;
      } finally {
        Sched.pre();
        rec.log("subR", "m", 0, "w", w, "i", i, "r", res);
      }
    }
  }

  private final Runner.HRt same = new Runner.HRt("X0");

  private synchronized int nextExc() {
    return ++excNo;
  }

  private synchronized int nextErr() {
    return ++errNo;
  }

  @Override
  void op(Op o) {
    if (!o.t.equals("gate") && !o.t.equals("throw")) {
      Sched.pre();
    }
    switch (o.t) {
      case "start": {
        Thread t = Thread.currentThread();
        boolean client = Sched.client();
        if (client) {
          starting.add(t);
        }
        rec.log("startC", "m", 0);
        call("startR", app::start, () -> client ? starting.remove(t) && Sched.interrupted() : t.isInterrupted());
        break;
      }
      case "int":
        if (!starting.isEmpty()) {
          rec.log("int", "m", 0, "w", Sched.tid(starting.get(0)));
          Sched.interrupt(starting.get(0));
        }
        break;
      case "stop":
        rec.log("stopC", "m", 0);
        call("stopR", app::stop);
        break;
      case "err": {
        int i = nextErr();
        rec.log("errC", "m", 0);
        Exception x = i % 3 == 0 ? null : i % 3 == 1 ? same : new java.io.IOException("err" + i);
        call("errR", () -> app.error(x));
        break;
      }
      case "st":
        rec.log("stC", "m", 0);
        String v = cur();
        Sched.pre();
        rec.log("st", "m", 0, "v", v);
        break;
      case "gate":
        Sched.blockUntil(() -> open[o.gate]);
        break;
      case "throw": {
        String id = "X" + nextExc();
        switch (o.kind) {
          case "ise":
            throw new Runner.HIse(id);
          case "chk":
            Runner.<RuntimeException>sneaky(new Runner.HChk(id));
            break;
          case "same":
            throw same;
          default:
            throw new Runner.HRt(id);
        }
        break;
      }
      default:
        throw new IllegalArgumentException(o.t);
    }
  }

  /** Clients in a start(). */
  private final List<Thread> starting = new java.util.concurrent.CopyOnWriteArrayList<>();

  private void call(String k, Runnable x) {
    call(k, x, null);
  }

  private void call(String k, Runnable x, java.util.function.BooleanSupplier in) {
    String res = "ok";
    try {
      x.run();
    } catch (Sched.Kill e) {
      throw e;
    } catch (Throwable t) {
      res = Runner.exName(t);
    }
    Sched.pre();
    if (in == null) {
      rec.log(k, "m", 0, "r", res);
    } else {
      rec.log(k, "m", 0, "r", res, "in", in.getAsBoolean());
    }
  }

  @Override
  void last() {
    op(op("st"));
  }
}
