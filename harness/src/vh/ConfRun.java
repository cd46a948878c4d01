package vh;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.UnexpectedFlowListener;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.List;
import java.util.Map;
import java.util.concurrent.AbstractExecutorService;
import java.util.concurrent.ConcurrentHashMap;
import java.util.concurrent.ExecutorService;
import java.util.concurrent.TimeUnit;
import java.util.concurrent.atomic.AtomicInteger;
import java.util.concurrent.atomic.AtomicLong;

/** Does what ConfigGen.tla wrote in the real code. Usage: in=file names=0|1 full=0|1 [from=n to=n] */
public final class ConfRun {

  static final String[] PLAIN = {"A", "B", "C", "x", "y", "w", "z", "U"};
  static final String[][] NAMES = {PLAIN,
      {"", " ", "AaAa", "", " ", "BBBB", "AaBB", "aaaa"},
      {"a", "A", "a ", "\u00e9", "e\u0301", "{}", "null", "_end_"},
      {"_immediate_", "immediate", "_End_", "_END_", "_NOOP_", "_UNINITIALISED_", "_end_", "_Immediate_"}};

  static final class Line {
    String key;
    List<String[]> path;
    List<String[]> no;
    List<String[]> ok;
    boolean start;
    List<String> cf;
    List<String[]> comp;
    List<String[]> probe;
    List<String[]> now;
    String init;
    String first;
    int nr;
  }

  static final class Diff extends RuntimeException {
    Diff(String s) {
      super(s);
    }
  }

  static final ExecutorService INLINE = new AbstractExecutorService() {
    @Override
    public void shutdown() {
    }

    @Override
    public List<Runnable> shutdownNow() {
      return List.of();
    }

    @Override
    public boolean isShutdown() {
      return false;
    }

    @Override
    public boolean isTerminated() {
      return false;
    }

    @Override
    public boolean awaitTermination(long t, TimeUnit u) {
      return true;
    }

    @Override
    public void execute(Runnable r) {
      r.run();
    }
  };

  /** A machine and what it did. */
  static final class M implements StateMachineListener<Void, Void>, UnexpectedFlowListener<Void, Void> {
    final String[] names;
    final List<String> calls = new ArrayList<>();
    final List<String> notes = new ArrayList<>();
    int unmapped;
    int failed;
    final GenericStateMachine<Void, Void> sm;

    M(String[] names) {
      this.names = names;
      EventProcessingStrategyFactory.Config<Void, Void> c = new EventProcessingStrategyFactory.Config<>();
      c.withExecutor(INLINE).withUnmappedEventHandler((e, m) -> unmapped++).withUnexpectedFlowListener(this);
      sm = new GenericStateMachine.Builder<Void, Void>().setStateMachineListener(this)
          .setEventProcessingStrategy(EventProcessingStrategyFactory.createDefaultStrategy(c)).build();
    }

    String real(String n) {
      int i = Arrays.asList(PLAIN).indexOf(n);
      return i < 0 ? n : new String(names[i]);
    }

    State<Void, Void> s(String n) {
      return new NamedState<>(real(n));
    }

    StateEvent<Void> e(String n) {
      return new NamedStateEvent<>(real(n));
    }

    /** Performs a call; whether it was accepted. */
    boolean op(String[] o) {
      calls.add(o[0] + "(" + o[1] + ")");
      try {
        StateMachine<Void, Void> r;
        switch (o[0]) {
          case "init":
            r = sm.initialSate(s(o[1]));
            break;
          case "when":
            r = sm.when(s(o[1]));
            break;
          case "rcv":
            r = sm.receives(e(o[1]));
            break;
          case "to":
            r = sm.itTransitionsTo(s(o[1]));
            break;
          case "end":
            r = sm.itEnds();
            break;
          case "noop":
            r = sm.itDoesNotTransition();
            break;
          case "start":
            sm.start();
            return true;
          case "startIn":
            sm.startInState(s(o[1]));
            return true;
          default:
            throw new IllegalArgumentException(o[0]);
        }
        if (r != sm) {
          throw new Diff("another machine was returned");
        }
        return true;
      } catch (IllegalStateException x) {
        return false;
      } catch (Diff x) {
        throw x;
      } catch (RuntimeException x) {
        throw new Diff("unexpected " + x);
      }
    }

    void must(String[] o, boolean ok) {
      boolean r = op(o);
      checks.incrementAndGet();
      if (r != ok) {
        throw new Diff(r ? "accepted" : "refused");
      }
    }

    void notStarted(String why) {
      if (sm.isStarted() || sm.getCurrentState() != null || !notes.isEmpty()) {
        throw new Diff("started by a refused call: " + why);
      }
    }

    void is(String n) {
      State<Void, Void> c = sm.getCurrentState();
      if (c == null || !c.getName().equals(real(n))) {
        throw new Diff("in state " + (c == null ? null : "'" + c.getName() + "'") + ", not '" + real(n) + "'");
      }
      if (sm.isEnded() != n.equals("_END_")) {
        throw new Diff("isEnded " + sm.isEnded());
      }
      if (!sm.isStarted()) {
        throw new Diff("not started");
      }
    }

    @Override
    public void onStateChangeBegin(State<Void, Void> f, StateEvent<Void> e, State<Void, Void> t) {
      notes.add(f.getName() + "\u0001" + e.getName() + "\u0001" + t.getName());
    }

    @Override
    public void onStateChangeEnd(State<Void, Void> f, StateEvent<Void> e, State<Void, Void> t) {
    }

    @Override
    public void onExceptionDuringEventProcessing(StateEvent<Void> e, StateMachine<Void, Void> m, Thread t,
        Exception x) {
      failed++;
    }

    @Override
    public void onEventAfterMachineEnd(StateEvent<Void> e, StateMachine<Void, Void> m) {
      failed++;
    }

    @Override
    public void onEventBeforeMachineStart(StateEvent<Void> e, StateMachine<Void, Void> m) {
      failed++;
    }
  }

  static final AtomicLong checks = new AtomicLong();
  static final AtomicLong machines = new AtomicLong();
  static final AtomicInteger bad = new AtomicInteger();
  static Map<String, Line> byKey = new ConcurrentHashMap<>();
  static String[] names;
  static boolean full;

  /** A machine at the line's configuration, after which the refused calls were made. */
  static M at(Line l, M m, boolean refuse) {
    machines.incrementAndGet();
    for (String[] o : l.path) {
      m.must(o, o[2].equals("ok"));
    }
    if (refuse) {
      for (String[] o : l.no) {
        m.must(o, false);
        m.notStarted(o[0]);
      }
    }
    return m;
  }

  static void probes(Line l, Line to, String[] via, boolean refuse) {
    fires(l, to.probe, to.comp, via, refuse);
    go(l, m -> {
      at(l, m, refuse);
      if (via != null) {
        m.must(via, true);
      }
      for (String[] o : to.comp) {
        m.must(o, true);
      }
      m.must(new String[]{"start", ""}, true);
      m.is(to.first);
    });
  }

  static void fires(Line l, List<String[]> probe, List<String[]> comp, String[] via, boolean refuse) {
    for (String[] p : probe) {
      go(l, m -> {
        at(l, m, refuse);
        if (via != null) {
          m.must(via, true);
        }
        for (String[] o : comp) {
          m.must(o, true);
        }
        m.must(new String[]{"startIn", p[0]}, true);
        m.is(p[0]);
        m.calls.add("fire(" + p[1] + ")");
        m.notes.clear();
        m.sm.fire(m.e(p[1]));
        checks.incrementAndGet();
        m.is(p[3]);
        boolean un = p[2].equals("-");
        if (m.unmapped != (un ? 1 : 0)) {
          throw new Diff("unmapped " + m.unmapped);
        }
        if (m.failed != 0) {
          throw new Diff("failed");
        }
        String n = m.real(p[0]) + "\u0001" + m.real(p[1]) + "\u0001" + m.real(p[2]);
        if (un ? !m.notes.isEmpty() : m.notes.isEmpty() || !m.notes.get(0).equals(n)) {
          throw new Diff("notified " + m.notes);
        }
      });
    }
  }

  interface Step {
    void run(M m);
  }

  static void go(Line l, Step s) {
    M m = new M(names);
    try {
      s.run(m);
    } catch (Diff d) {
      if (bad.incrementAndGet() <= 5) {
        synchronized (ConfRun.class) {
          StringBuilder b = new StringBuilder("DIFF ");
          b.append(l.nr).append(" ");
          Rec.val(b, d.getMessage() + " after " + String.join(" ", m.calls));
          System.out.println(b);
        }
      }
    }
  }

  static void check(Line l) {
    if (bad.get() > 50) {
      return;
    }
    // starting it as it is
    go(l, m -> {
      at(l, m, true);
      String[] start = {"start", ""};
      if (!l.start) {
        m.must(start, false);
        m.notStarted("start");
        for (String c : l.cf) {
          m.must(new String[]{"startIn", c}, false);
          m.notStarted("startInState");
        }
      }
      m.must(new String[]{"startIn", "U"}, false);
      m.notStarted("startInState");
      for (String[] o : l.comp) {
        m.must(o, true);
      }
      m.must(start, true);
      m.is(l.first);
      m.must(start, false);
      m.must(new String[]{"startIn", l.init}, false);
      m.is(l.first);
    });
    if (l.start) {
      go(l, m -> {
        at(l, m, false);
        m.must(new String[]{"start", ""}, true);
        m.is(l.first);
      });
      for (String c : l.cf) {
        go(l, m -> {
          at(l, m, false);
          m.must(new String[]{"startIn", c}, true);
          m.is(c);
        });
      }
    }
    fires(l, l.now, List.of(), null, true);
    probes(l, l, null, true);
    for (String[] o : l.ok) {
      Line t = byKey.get(o[2]);
      if (t != null && full) {
        probes(l, t, o, false);
      } else {
        go(l, m -> {
          at(l, m, false);
          m.must(o, true);
        });
      }
    }
  }

  static List<String[]> ops(Object o) {
    List<String[]> r = new ArrayList<>();
    for (Object x : (List<?>) o) {
      r.add(((List<?>) x).toArray(new String[0]));
    }
    return r;
  }

  public static void main(String[] a) throws Exception {
    Map<String, String> o = new java.util.HashMap<>();
    for (String x : a) {
      int i = x.indexOf('=');
      o.put(x.substring(0, i), x.substring(i + 1));
    }
    names = NAMES[Integer.parseInt(o.getOrDefault("names", "0"))];
    full = o.getOrDefault("full", "0").equals("1");
    List<Line> lines = new ArrayList<>();
    int only = Integer.parseInt(o.getOrDefault("only", "0"));
    for (String s : Files.readAllLines(Paths.get(o.get("in")))) {
      Map<?, ?> m = (Map<?, ?>) Json.parse(s);
      Line l = new Line();
      l.key = (String) m.get("key");
      l.path = ops(m.get("path"));
      l.no = ops(m.get("no"));
      l.ok = ops(m.get("ok"));
      l.comp = ops(m.get("comp"));
      l.probe = ops(m.get("probe"));
      l.now = ops(m.get("now"));
      l.start = (Boolean) m.get("start");
      l.init = (String) m.get("init");
      l.first = (String) m.get("first");
      l.cf = new ArrayList<>();
      for (Object x : (List<?>) m.get("cf")) {
        l.cf.add((String) x);
      }
      lines.add(l);
      l.nr = lines.size();
      byKey.put(l.key, l);
    }
    long n = lines.parallelStream().filter(l -> only == 0 || l.nr == only).peek(ConfRun::check).count();
    System.out.println("{\"configurations\":" + n + ",\"machines\":" + machines + ",\"compared\":" + checks
        + ",\"different\":" + bad + "}");
    System.out.flush();
    Runtime.getRuntime().halt(0);
  }

  private ConfRun() {
  }
}
