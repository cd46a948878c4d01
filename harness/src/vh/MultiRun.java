package vh;

import com.webotech.statemachine.MultiConsumerStateMachineListener;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachineListener;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.Random;

/** Experiments on the listener that passes notifications on to several consumers. */
final class MultiRun extends Exp<MultiRun.Op> {

  static final class Op {
    final String t;
    final int c;

    Op(String t, int c) {
      this.t = t;
      this.c = c;
    }

    @Override
    public String toString() {
      return t + (t.equals("nb") || t.equals("ne") ? "" : c);
    }
  }

  final String fam;
  final long seed;
  final int n;
  final List<Integer> initial = new ArrayList<>();
  final List<List<List<Op>>> phases = new ArrayList<>();
  /** What consumer c does the k-th time it is called. */
  final Map<Integer, List<List<Op>>> acts = new LinkedHashMap<>();
  final Map<Integer, Integer> occ = new HashMap<>();
  private final Random r;
  private final List<Con> cons = new ArrayList<>();
  private MultiConsumerStateMachineListener<Void, Void> sut;
  private int nextN;
  private int nextX;
  private int depth;
  private final State<Void, Void>[] states;
  private final StateEvent<Void>[] events;

  @SuppressWarnings("unchecked")
  MultiRun(String fam, long seed) {
    this.fam = fam;
    this.seed = seed;
    r = new Random(seed * 1_000_003L + fam.hashCode());
    for (int i = 0; i < 3; i++) {
      r.nextInt();
    }
    boolean seq = fam.equals("multiseq");
    n = 1 + r.nextInt(seq ? 5 : 3) + (seq && r.nextInt(5) == 0 ? 15 : 0);
    for (int i = 0; i < n; i++) {
      if (r.nextInt(3) > 0) {
        initial.add(i);
      }
    }
    int thr = r.nextInt(3) == 0 ? 150 : 0;
    int call = r.nextInt(2) == 0 ? 150 : 0;
    for (int i = 0; i < n; i++) {
      List<List<Op>> l = new ArrayList<>();
      for (int k = 0; k < 5; k++) {
        List<Op> ops = new ArrayList<>();
        if (r.nextInt(1000) < call) {
          ops.add(op(true));
        }
        if (r.nextInt(1000) < thr) {
          ops.add(new Op("throw", r.nextInt(2)));
        }
        l.add(ops);
      }
      acts.put(i, l);
    }
    int ph = 1 + r.nextInt(seq ? 2 : 3);
    for (int p = 0; p < ph; p++) {
      List<List<Op>> cl = new ArrayList<>();
      int c = seq ? 1 : 1 + r.nextInt(3);
      for (int i = 0; i < c; i++) {
        List<Op> l = new ArrayList<>();
        int m = seq ? 3 + r.nextInt(8) : 1 + r.nextInt(3);
        for (int j = 0; j < m; j++) {
          l.add(op(false));
        }
        cl.add(l);
      }
      phases.add(cl);
    }
    states = new State[]{new NamedState<Void, Void>("P"), new NamedState<Void, Void>("Q"), null};
    events = new StateEvent[]{new NamedStateEvent<Void>("e"), new NamedStateEvent<Void>("f"), null};
  }

  /** From a history of the specification, consumers are called in the order of their numbers. */
  @SuppressWarnings("unchecked")
  MultiRun(McRun.Plan p) {
    fam = "mc";
    seed = -1;
    r = new Random(0);
    n = McRun.num(p.cfg.get("n"));
    for (Object o : McRun.list(p.cfg.get("init"))) {
      initial.add(McRun.num(o));
    }
    List<List<Op>> cl = new ArrayList<>();
    for (List<Object[]> c : p.clients) {
      cl.add(ops(c));
    }
    phases.add(cl);
    for (int i = 0; i < n; i++) {
      List<List<Op>> x = new ArrayList<>();
      for (List<Object[]> c : p.acts.getOrDefault(String.valueOf(i), List.of())) {
        x.add(ops(c));
      }
      while (x.size() < 5) {
        x.add(List.of());
      }
      acts.put(i, x);
    }
    states = new State[]{new NamedState<Void, Void>("P"), new NamedState<Void, Void>("Q"), null};
    events = new StateEvent[]{new NamedStateEvent<Void>("e"), new NamedStateEvent<Void>("f"), null};
  }

  private static List<Op> ops(List<Object[]> l) {
    List<Op> x = new ArrayList<>();
    for (Object[] o : l) {
      x.add(new Op((String) o[0], (Integer) o[1]));
    }
    return x;
  }

  private Op op(boolean inside) {
    int x = r.nextInt(inside ? 10 : 8);
    if (x < 4) {
      return new Op(r.nextBoolean() ? "nb" : "ne", 0);
    }
    return new Op(r.nextBoolean() ? "add" : "rem", r.nextInt(n));
  }

  @Override
  String header(String sched) {
    Map<String, Object> m = new LinkedHashMap<>();
    m.put("fam", fam);
    m.put("seed", seed);
    m.put("sched", sched);
    Map<String, Object> a = new LinkedHashMap<>();
    a.put("id", 0);
    a.put("init", initial);
    a.put("n", n);
    m.put("m", List.of(a));
    StringBuilder b = new StringBuilder();
    Rec.val(b, m);
    return b.toString();
  }

  @Override
  String describe() {
    return "consumers=" + n + " at first " + initial + " acts=" + acts + " phases=" + phases;
  }

  @Override
  List<List<List<Op>>> phases() {
    return phases;
  }

  @Override
  @SuppressWarnings("unchecked")
  boolean tryBuild() {
    for (int i = 0; i < n; i++) {
      cons.add(new Con(i));
    }
    StateMachineListener<Void, Void>[] a = new StateMachineListener[initial.size()];
    for (int i = 0; i < a.length; i++) {
      a[i] = cons.get(initial.get(i));
    }
    sut = new MultiConsumerStateMachineListener<>(a);
    return true;
  }

  final class Con implements StateMachineListener<Void, Void> {
    final int i;

    Con(int i) {
      this.i = i;
    }

    // the same order in every run
    @Override
    public int hashCode() {
      return seed < 0 ? i : seed % 3 == 0 ? 5 : (int) ((i + 1) * (seed * 2 + 7) * 0x9E3779B1L % 1024);
    }

    @Override
    public boolean equals(Object o) {
      return this == o;
    }

    @Override
    public void onStateChangeBegin(State<Void, Void> f, StateEvent<Void> e, State<Void, Void> t) {
      called("nb", f, e, t);
    }

    @Override
    public void onStateChangeEnd(State<Void, Void> f, StateEvent<Void> e, State<Void, Void> t) {
      called("ne", f, e, t);
    }

    private void called(String k, State<Void, Void> f, StateEvent<Void> e, State<Void, Void> t) {
      Sched.pre();
      int o;
      int d;
      synchronized (occ) {
        o = occ.merge(i, 1, Integer::sum) - 1;
        d = ++depth;
      }
      rec.log("dlv", "m", 0, "c", i, "w", k, "a", List.of(at(states, f), at(events, e), at(states, t)));
      String res = "ok";
      try {
        Sched.y(-20);
        if (d < 12 && o < 5) {
          for (Op x : acts.get(i).get(o)) {
            op(x);
          }
        }
      } catch (Sched.Kill x) {
        throw x;
      } catch (RuntimeException x) {
        res = Runner.exName(x);
        throw x;
      } finally {
        synchronized (occ) {
          depth--;
        }
        Sched.pre();
        rec.log("dlvR", "m", 0, "c", i, "r", res);
      }
    }
  }

  private static int at(Object[] a, Object o) {
    for (int i = 0; i < a.length; i++) {
      if (a[i] == o) {
        return i;
      }
    }
    return -1;
  }

  @Override
  void op(Op o) {
    switch (o.t) {
      case "add":
      case "rem": {
        Sched.pre();
        rec.log(o.t + "C", "m", 0, "c", o.c);
        String r;
        try {
          r = String.valueOf(o.t.equals("add") ? sut.add(cons.get(o.c)) : sut.remove(cons.get(o.c)));
        } catch (RuntimeException x) {
          r = Runner.exName(x);
        }
        Sched.pre();
        rec.log(o.t + "R", "m", 0, "c", o.c, "r", r);
        break;
      }
      case "nb":
      case "ne": {
        Sched.pre();
        int k;
        synchronized (occ) {
          k = nextN++;
        }
        int f = k % 2;
        int e = k / 2 % 2;
        int t = k / 4 % 2;
        rec.log("ntC", "m", 0, "w", o.t, "a", List.of(f, e, t));
        String res = "ok";
        try {
          if (o.t.equals("nb")) {
            sut.onStateChangeBegin(states[f], events[e], states[t]);
          } else {
            sut.onStateChangeEnd(states[f], events[e], states[t]);
          }
        } catch (Sched.Kill x) {
          throw x;
        } catch (Throwable x) {
          res = Runner.exName(x);
        }
        Sched.pre();
        rec.log("ntR", "m", 0, "r", res);
        break;
      }
      case "throw": {
        String id;
        synchronized (occ) {
          id = "X" + ++nextX;
        }
        if (o.c == 0) {
          throw new Runner.HIse(id);
        }
        throw new Runner.HRt(id);
      }
      default:
        throw new IllegalArgumentException(o.t);
    }
  }
}
