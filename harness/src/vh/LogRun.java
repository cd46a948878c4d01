package vh;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.LoggingStateMachineListener;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateAction;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.api.StateMachineListener;
import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.Random;

/** Experiments on the listener that logs. */
final class LogRun extends Exp<LogRun.Op> {

  static final String[] POOL = {"A", "B", "", "{}", "{} {}", "%s", "\\{}", "a\nb", " ", "Begin", "\u00e9",
      "null", "_NOOP_", "transition: A + B = {}", "$1", "${x}", "[B]"};

  static final class Op {
    final String t;
    final int l;
    final int[] a;

    Op(String t, int l, int... a) {
      this.t = t;
      this.l = l;
      this.a = a;
    }

    @Override
    public String toString() {
      return t + l + java.util.Arrays.toString(a);
    }
  }

  /** A state whose text is not its name. */
  static final class Own implements State<Void, Void> {
    final String name;

    Own(String n) {
      name = n;
    }

    @Override
    public void onEntry(StateEvent<Void> e, StateMachine<Void, Void> m) {
    }

    @Override
    public void onExit(StateEvent<Void> e, StateMachine<Void, Void> m) {
    }

    @SafeVarargs
    @Override
    public final void appendEntryActions(StateAction<Void, Void>... a) {
    }

    @SafeVarargs
    @Override
    public final void appendExitActions(StateAction<Void, Void>... a) {
    }

    @Override
    public String getName() {
      return name;
    }

    @Override
    public boolean equals(Object o) {
      return o instanceof Own && ((Own) o).name.equals(name);
    }

    @Override
    public int hashCode() {
      return name.hashCode();
    }

    @Override
    public String toString() {
      return "own:" + name;
    }
  }

  final String fam;
  final long seed;
  final List<String> names = new ArrayList<>();
  final String[] pool;
  final List<List<List<Op>>> phases = new ArrayList<>();
  private final Random r;
  private final List<LoggingStateMachineListener<Void, Void>> sut = new ArrayList<>();
  private final List<GenericStateMachine<Void, Void>> sms = new ArrayList<>();
  private final int[][] table = new int[3][2];

  LogRun(String fam, long seed) {
    this.fam = fam;
    this.seed = seed;
    r = new Random(seed * 1_000_003L + fam.hashCode());
    for (int i = 0; i < 3; i++) {
      r.nextInt();
    }
    boolean run = fam.equals("logrun");
    List<String> p = new ArrayList<>(List.of(POOL));
    java.util.Collections.shuffle(p, r);
    pool = p.subList(0, 5).toArray(new String[0]);
    int n = 1 + r.nextInt(run ? 2 : 3);
    for (int i = 0; i < n; i++) {
      names.add(r.nextInt(4) == 0 ? null : r.nextInt(5) == 0 ? "" : POOL[r.nextInt(POOL.length)]);
    }
    for (int[] x : table) {
      for (int e = 0; e < 2; e++) {
        x[e] = r.nextInt(8);
      }
    }
    int ph = 1 + r.nextInt(2);
    for (int k = 0; k < ph; k++) {
      List<List<Op>> cl = new ArrayList<>();
      int c = 1 + r.nextInt(2);
      for (int i = 0; i < c; i++) {
        List<Op> l = new ArrayList<>();
        int m = 1 + r.nextInt(5);
        for (int j = 0; j < m; j++) {
          int w = r.nextInt(n);
          l.add(run ? new Op("fire", w, r.nextInt(2))
              : new Op(r.nextBoolean() ? "b" : "e", w, r.nextInt(5), r.nextInt(5), r.nextInt(5)));
        }
        cl.add(l);
      }
      phases.add(cl);
    }
  }

  @Override
  String header(String sched) {
    Map<String, Object> m = new LinkedHashMap<>();
    m.put("fam", fam);
    m.put("seed", seed);
    m.put("sched", sched);
    Map<String, Object> a = new LinkedHashMap<>();
    a.put("id", 0);
    List<String> l = new ArrayList<>();
    for (String s : names) {
      l.add(s == null ? "" : s);
    }
    a.put("names", l);
    m.put("m", List.of(a));
    StringBuilder b = new StringBuilder();
    Rec.val(b, m);
    return b.toString();
  }

  @Override
  String describe() {
    return "names=" + names + " pool=" + java.util.Arrays.toString(pool) + " table="
        + java.util.Arrays.deepToString(table) + " phases=" + phases;
  }

  @Override
  List<List<List<Op>>> phases() {
    return phases;
  }

  /** Passes on to the listener under test. */
  final class Wrap implements StateMachineListener<Void, Void> {
    final int i;

    Wrap(int i) {
      this.i = i;
    }

    @Override
    public void onStateChangeBegin(State<Void, Void> f, StateEvent<Void> e, State<Void, Void> t) {
      note(i, "b", f, e, t);
    }

    @Override
    public void onStateChangeEnd(State<Void, Void> f, StateEvent<Void> e, State<Void, Void> t) {
      note(i, "e", f, e, t);
    }
  }

  private void note(int i, String w, State<Void, Void> f, StateEvent<Void> e, State<Void, Void> t) {
    rec.log("lnC", "m", 0, "i", i, "w", w, "fr", f.getName(), "e", e.getName(), "to", t.getName());
    Sched.y(-21);
    String res = "ok";
    try {
      if (w.equals("b")) {
        sut.get(i).onStateChangeBegin(f, e, t);
      } else {
        sut.get(i).onStateChangeEnd(f, e, t);
      }
    } catch (Sched.Kill x) {
      throw x;
    } catch (Throwable x) {
      res = Runner.exName(x);
    }
    rec.log("lnR", "m", 0, "r", res);
  }

  static void sink(Rec rec) {
    LogFactory.sink = (n, v, s, x) -> rec.log("line", "m", 0, "lg", n.endsWith("LoggingStateMachineListener"), "s", s);
  }

  @Override
  boolean tryBuild() {
    sink(rec);
    for (String s : names) {
      sut.add(s == null && seed % 2 == 0 ? new LoggingStateMachineListener<>()
          : new LoggingStateMachineListener<>(s));
    }
    if (fam.equals("logrun")) {
      for (int i = 0; i < names.size(); i++) {
        GenericStateMachine<Void, Void> sm = new GenericStateMachine.Builder<Void, Void>().build();
        sm.setStateMachineListener(new Wrap(i));
        for (int s = 0; s < 3; s++) {
          StateMachine<Void, Void> x = s == 0 ? sm.initialSate(st(0)) : sm.when(st(s));
          boolean any = false;
          for (int e = 0; e < 2; e++) {
            int k = table[s][e];
            if (k < 6) {
              if (any) {
                sm.when(st(s));
              }
              any = true;
              sm.receives(ev(e));
              if (k == 0) {
                sm.itDoesNotTransition();
              } else if (k == 5 && i == 0) {
                sm.itEnds();
              } else {
                sm.itTransitionsTo(st(k % 3));
              }
            }
          }
          if (!any) {
            sm.receives(new NamedStateEvent<>("never")).itDoesNotTransition();
          }
        }
        sm.start();
        sms.add(sm);
      }
    }
    return true;
  }

  private State<Void, Void> st(int i) {
    String n = pool[i];
    return n.equals("_NOOP_") && fam.equals("logrun") ? new NamedState<>("noop") : seed % 3 == 0 ? new Own(n)
        : new NamedState<>(n);
  }

  private StateEvent<Void> ev(int i) {
    return new NamedStateEvent<>(pool[i + (seed % 2 == 0 ? 3 : 0) % 4]);
  }

  @Override
  void op(Op o) {
    if (o.t.equals("fire")) {
      sms.get(o.l).fire(ev(o.a[0]));
    } else {
      note(o.l, o.t, st(o.a[0]), ev(o.a[1] % 2), st(o.a[2]));
    }
  }
}
