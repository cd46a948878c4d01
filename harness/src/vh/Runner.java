package vh;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.HandleExceptionAction;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.UnexpectedFlowListener;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateAction;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.service.LifecycleStateMachineUtil;
import com.webotech.statemachine.strategy.EventProcessingStrategy;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory.Config;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import java.util.concurrent.ArrayBlockingQueue;
import java.util.concurrent.ConcurrentLinkedQueue;
import java.util.concurrent.CountDownLatch;
import java.util.concurrent.ExecutorService;
import java.util.concurrent.Executors;
import java.util.concurrent.ThreadFactory;
import java.util.concurrent.atomic.AtomicInteger;

/** Runs one scenario once and records it. */
public final class Runner extends Exp<Scn.Op> {

  interface Ided {
    String id();
  }

  static final class HRt extends RuntimeException implements Ided {
    final String id;

    HRt(String id) {
      super("rt " + id);
      this.id = id;
    }

    @Override
    public String id() {
      return id;
    }
  }

  static final class HIse extends IllegalStateException implements Ided {
    final String id;

    HIse(String id) {
      super("ise " + id);
      this.id = id;
    }

    @Override
    public String id() {
      return id;
    }
  }

  static final class HChk extends Exception implements Ided {
    final String id;

    HChk(String id) {
      super("chk " + id);
      this.id = id;
    }

    @Override
    public String id() {
      return id;
    }
  }

  static final class HErr extends Error implements Ided {
    final String id;

    HErr(String id) {
      super("err " + id);
      this.id = id;
    }

    @Override
    public String id() {
      return id;
    }
  }

  @SuppressWarnings("unchecked")
  static <E extends Throwable> void sneaky(Throwable t) throws E {
    throw (E) t;
  }

  /** A client's own event type. */
  static final class HEvent implements StateEvent<Object> {
    final String name;
    Object payload;

    HEvent(String n) {
      name = n;
    }

    @Override
    public String getName() {
      return name;
    }

    @Override
    public Object getPayload() {
      return payload;
    }

    @Override
    public void setPayload(Object p) {
      payload = p;
    }

    @Override
    public boolean equals(Object o) {
      return o instanceof HEvent && ((HEvent) o).name.equals(name);
    }

    @Override
    public int hashCode() {
      return name.hashCode() * 31 + 7;
    }
  }

  /** A client's own state type. */
  static final class HState implements State<Object, Object> {
    final String name;
    final List<StateAction<Object, Object>> en = new ArrayList<>();
    final List<StateAction<Object, Object>> ex = new ArrayList<>();

    HState(String n) {
      name = n;
    }

    @Override
    public void onEntry(StateEvent<Object> e, StateMachine<Object, Object> m) {
      for (StateAction<Object, Object> a : en) {
        a.execute(e, m);
      }
    }

    @Override
    public void onExit(StateEvent<Object> e, StateMachine<Object, Object> m) {
      for (StateAction<Object, Object> a : ex) {
        a.execute(e, m);
      }
    }

    @SafeVarargs
    @Override
    public final void appendEntryActions(StateAction<Object, Object>... a) {
      en.addAll(List.of(a));
    }

    @SafeVarargs
    @Override
    public final void appendExitActions(StateAction<Object, Object>... a) {
      ex.addAll(List.of(a));
    }

    @Override
    public String getName() {
      return name;
    }

    @Override
    public boolean equals(Object o) {
      return o instanceof HState && ((HState) o).name.equals(name);
    }

    @Override
    public int hashCode() {
      return name.hashCode() + 3;
    }
  }

  /** An action that equals every other one: a state has to run each as often as it was given it. */
  static final class EqAction implements StateAction<Object, Object> {
    final StateAction<Object, Object> a;

    EqAction(StateAction<Object, Object> a) {
      this.a = a;
    }

    @Override
    public void execute(StateEvent<Object> e, StateMachine<Object, Object> m) {
      a.execute(e, m);
    }

    @Override
    public boolean equals(Object o) {
      return o instanceof EqAction;
    }

    @Override
    public int hashCode() {
      return 1;
    }
  }

  final class Mach implements StateMachineListener<Object, Object>,
      UnexpectedFlowListener<Object, Object> {
    final int id;
    final Scn.M c;
    final Object ctx = new Object();
    final Map<String, AtomicInteger> occ = new HashMap<>();
    final Map<String, Integer> sIdx = new HashMap<>();
    final Map<String, Integer> eIdx = new HashMap<>();
    final Map<Integer, State<Object, Object>> kept = new HashMap<>();
    GenericStateMachine<Object, Object> sm;

    Mach(int id, Scn.M c) {
      this.id = id;
      this.c = c;
      for (int i = 0; i < c.states.length; i++) {
        sIdx.put(c.states[i], i);
      }
      for (int i = 0; i < c.events.length; i++) {
        eIdx.put(c.events[i], i);
      }
    }

    String s(State<Object, Object> s) {
      if (s == null) {
        return "NULL";
      }
      String n = s.getName();
      Integer i = sIdx.get(n);
      return i != null ? "s" + i : "_END_".equals(n) ? "END" : "_NOOP_".equals(n) ? "NOOP"
          : "_UNINITIALISED_".equals(n) ? "UNINIT" : "?" + n;
    }

    String e(StateEvent<Object> e) {
      if (e == null) {
        return "NULL";
      }
      Integer i = eIdx.get(e.getName());
      return i != null ? "e" + i : "_immediate_".equals(e.getName()) ? "IMM" : "?" + e.getName();
    }

    String cur() {
      return free ? "-" : s(sm.getCurrentState());
    }

    void cb(String c, String key, StateEvent<Object> ev, StateMachine<Object, Object> arg,
        Object... more) {
      if (rec.isClosed()) {
        return;
      }
      int n = next(key);
      Object[] kv = new Object[more.length + 12];
      kv[0] = "m";
      kv[1] = id;
      kv[2] = "c";
      kv[3] = c;
      kv[4] = "e";
      kv[5] = e(ev);
      kv[6] = "p";
      kv[7] = p(ev);
      kv[8] = "cur";
      kv[10] = "ok";
      kv[11] = (arg == null || arg == sm) && sm.getContext() == ctx;
      System.arraycopy(more, 0, kv, 12, more.length);
      Thread t = Thread.currentThread();
      if (rec.firstSeen(t)) {
        String nm = t.getName();
        String pre = this.c.threadName == null ? "state-machine" : this.c.threadName;
        rec.log("thr", "m", id, "dm", t.isDaemon(), "nm", nm.startsWith(pre), "ue",
            nm.startsWith("user-exec"));
      }
      Sched.pre();
      kv[9] = Sched.still(this::cur);
      rec.log("cb", kv);
      String r = "ok";
      try {
        Sched.y(-20);
        for (Scn.Op o : this.c.act(key, n)) {
          exec(o, this, null);
        }
      } catch (Sched.Kill k) {
        throw k;
      } catch (Throwable x) {
        r = exName(x);
        throw x;
      } finally {
        Sched.pre();
        rec.log("cbr", "m", id, "c", c, "r", r);
      }
    }

    private synchronized int next(String key) {
      return occ.computeIfAbsent(key, k -> new AtomicInteger()).getAndIncrement();
    }

    @Override
    public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e,
        State<Object, Object> t) {
      notified("beg", 1, f, e, t);
    }

    @Override
    public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e,
        State<Object, Object> t) {
      notified("end", 1, f, e, t);
    }

    void notified(String k, int l, State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
      if (c.lsv) {
        cb(k, k, e, null, "fr", s(f), "to", s(t), "l", l);
      } else {
        cb(k, k, e, null, "fr", s(f), "to", s(t));
      }
    }

    /** Listener l of this machine: 0 is none, 1 the one it begins with. */
    StateMachineListener<Object, Object> listener(int l) {
      return l == 0 ? null : l == 1 ? this : new StateMachineListener<>() {
        @Override
        public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
          notified("beg", l, f, e, t);
        }

        @Override
        public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
          notified("end", l, f, e, t);
        }
      };
    }

    @Override
    public void onExceptionDuringEventProcessing(StateEvent<Object> e,
        StateMachine<Object, Object> m, Thread thread, Exception x) {
      cb("exc", "exc", e, m, "x", exName(x), "tok", thread == Thread.currentThread());
    }

    @Override
    public void onEventAfterMachineEnd(StateEvent<Object> e, StateMachine<Object, Object> m) {
      cb("aft", "aft", e, m);
    }

    @Override
    public void onEventBeforeMachineStart(StateEvent<Object> e, StateMachine<Object, Object> m) {
      cb("bef", "bef", e, m);
    }

    /** A line of the log. */
    void logged(String logger, String lv, String line, Throwable x) {
      String[] named = {"-", "-"};
      for (int k = 0; k < 2; k++) {
        Map<String, String> m = new HashMap<>();
        (k == 0 ? eIdx : sIdx).forEach((n, i) -> m.put(n, i + ""));
        String pre = k == 0 ? "e" : "s";
        int n = 0;
        for (Map.Entry<String, String> y : m.entrySet()) {
          if (line.contains(y.getKey())) {
            named[k] = n++ == 0 ? pre + y.getValue() : "many";
          }
        }
      }
      if (named[1].equals("-")) {
        named[1] = line.contains("_END_") ? "END" : line.contains("_UNINIT") ? "UNINIT" : "-";
      }
      String xn = x == null ? "-" : exName(x);
      String what = x != null ? x instanceof Exception ? "exc" : "unc" : logger.endsWith("DropDuplicateEventStrategy") ? "dup"
          : line.contains("before") ? "bef" : line.contains("after") ? "aft" : "un";
      Sched.pre();
      rec.log("ln", "m", id, "c", what, "e", named[0], "p", "*", "cur", "-", "ok", true, "st",
          what.equals("un") || what.equals("exc") ? named[1] : "-", "x", xn, "tok",
          x == null || line.contains(Thread.currentThread().getName()), "lv", lv);
    }

    /** A state made by the utility, which is given the entry actions. */
    @SuppressWarnings({"unchecked", "rawtypes"})
    private State<Object, Object> lifeState(int i) {
      StateAction[] a = new StateAction[c.nen[i]];
      for (int k = 0; k < a.length; k++) {
        a[k] = action("en", i, k);
      }
      State s = i == 0 ? LifecycleStateMachineUtil.newUnitialisedState(a) : i == 1 ? LifecycleStateMachineUtil.newStartingState(a)
          : i == 2 ? LifecycleStateMachineUtil.newStartedState(a) : i == 3 ? LifecycleStateMachineUtil.newStoppingState(a)
          : LifecycleStateMachineUtil.newStoppedState(a);
      for (int k = 0; k < c.nex[i]; k++) {
        s.appendExitActions(action("ex", i, k));
      }
      return s;
    }

    @SuppressWarnings({"unchecked", "rawtypes"})
    private StateEvent<Object> lifeEvent(int i) {
      StateEvent e = i == 0 ? LifecycleStateMachineUtil.evtStart : i == 1 ? LifecycleStateMachineUtil.evtComplete
          : i == 2 ? LifecycleStateMachineUtil.evtStop : i == 3 ? LifecycleStateMachineUtil.evtError : newEvent(i);
      return e;
    }

    @SuppressWarnings({"unchecked", "rawtypes"})
    private void configureLife() {
      LifecycleStateMachineUtil.configureAppStateMachine((StateMachine) sm, (State) state(0), (State) state(1),
          (State) state(2), (State) state(3), (State) state(4));
    }

    State<Object, Object> state(int i) {
      if (c.life) {
        return kept.computeIfAbsent(i, this::lifeState);
      }
      if (c.share && shared.containsKey(c.states[i])) {
        return shared.get(c.states[i]);
      }
      if (!c.freshStates && kept.containsKey(i)) {
        return kept.get(i);
      }
      State<Object, Object> s = c.customStates ? new HState(c.states[i])
          : new NamedState<>(fresh(c.states[i]));
      if (c.append != Scn.LATE || c.freshStates) {
        append(s, i);
      }
      kept.put(i, s);
      if (c.share) {
        shared.put(c.states[i], s);
      }
      return s;
    }

    /** Gives a state its actions: one by one, or all in one call. */
    @SuppressWarnings("unchecked")
    void append(State<Object, Object> s, int i) {
      for (String kind : new String[]{"en", "ex"}) {
        List<StateAction<Object, Object>> l = new ArrayList<>();
        int n = kind.equals("en") ? c.nen[i] : c.nex[i];
        for (int k = 0; k < n; k++) {
          l.add(action(kind, i, k));
          if (c.append == Scn.NULLS && !c.customStates) {
            l.add(k / 2, null);
          }
        }
        StateAction<Object, Object>[] a = l.toArray(new StateAction[0]);
        if (c.append == Scn.NULLS || c.append == Scn.TOGETHER) {
          append(s, kind, a);
        } else {
          for (StateAction<Object, Object> x : a) {
            append(s, kind, x);
          }
        }
      }
    }

    @SafeVarargs
    private void append(State<Object, Object> s, String kind, StateAction<Object, Object>... a) {
      if (kind.equals("en")) {
        s.appendEntryActions(a);
      } else {
        s.appendExitActions(a);
      }
    }

    StateAction<Object, Object> action(String kind, int i, int k) {
      String key = kind + ":" + i + ":" + k;
      StateAction<Object, Object> a = (ev, m) -> of(m).cb(kind, key, ev, m, "s", "s" + i, "i", k);
      if (c.eqActs) {
        a = new EqAction(a);
      }
      if (c.wrap.contains(key)) {
        a = new HandleExceptionAction<>(a, (ev, m, x) -> of(m).cb("h", "h:" + key, ev, m, "s", "s" + i, "i",
            k, "x", exName(x)));
      }
      return a;
    }

    /** The machine an action is executed by. */
    Mach of(StateMachine<Object, Object> m) {
      return !c.share ? this : ms.stream().filter(x -> x.sm == m).findFirst().orElse(this);
    }

    StateEvent<Object> event(int i) {
      if (c.life) {
        return lifeEvent(i);
      }
      if (c.share) {
        return sharedEvents.computeIfAbsent(c.events[i], NamedStateEvent::new);
      }
      return newEvent(i);
    }

    StateEvent<Object> newEvent(int i) {
      return c.customEvents ? new HEvent(fresh(c.events[i])) : new NamedStateEvent<>(
          fresh(c.events[i]));
    }

    void configure() {
      if (c.life) {
        configureLife();
        return;
      }
      boolean first = true;
      int rowless = -1;
      List<Integer> order = new ArrayList<>();
      order.add(c.init);
      c.tab.keySet().forEach(k -> {
        if (k != c.init) {
          order.add(k);
        }
      });
      c.imm.forEach(k -> {
        if (!order.contains(k)) {
          order.add(k);
        }
      });
      for (int s : order) {
        Map<Integer, Integer> row = c.tab.getOrDefault(s, Map.of());
        if (c.imm.contains(s)) {
          if (first) {
            sm.initialSate(state(s)).itEnds();
          } else {
            sm.when(state(s)).itEnds();
          }
          first = false;
          continue;
        }
        if (row.isEmpty()) {
          if (first) {
            sm.initialSate(state(s));
          } else {
            rowless = s;
          }
          if (first && order.size() > 1) {
            // leave the cursor: a state without mappings can only be the last configured
            throw new IllegalStateException("scenario: initial state without mappings");
          }
          first = false;
          continue;
        }
        for (Map.Entry<Integer, Integer> x : row.entrySet()) {
          StateMachine<Object, Object> w = first ? sm.initialSate(state(s)) : sm.when(state(s));
          first = false;
          w = w.receives(event(x.getKey()));
          int to = x.getValue();
          if (to == Scn.NOOP) {
            w.itDoesNotTransition();
          } else if (to == Scn.END) {
            w.itEnds();
          } else {
            w.itTransitionsTo(state(to));
          }
        }
      }
      if (rowless >= 0) {
        // configured, without any mapping: the last one, since it stays marked
        sm.when(state(rowless));
      }
      if (c.append == Scn.LATE && !c.freshStates) {
        kept.forEach((i, s) -> append(s, i));
      }
    }

  }

  static String fresh(String s) {
    return s == null ? null : new String(s.toCharArray());
  }

  static String p(StateEvent<Object> e) {
    return e == null || e.getPayload() == null ? "-" : String.valueOf(e.getPayload());
  }

  static String exName(Throwable x) {
    return x instanceof Ided ? ((Ided) x).id()
        : x instanceof IllegalStateException ? "ISE" : "F:" + x.getClass().getSimpleName();
  }

  final Scn scn;
  final boolean free;
  final Map<String, State<Object, Object>> shared = new HashMap<>();
  final Map<String, StateEvent<Object>> sharedEvents = new java.util.concurrent.ConcurrentHashMap<>();
  final List<Mach> ms = new ArrayList<>();
  final StateEvent<Object>[] insts;
  final CountDownLatch[] latches = new CountDownLatch[16];
  int fireNo;
  int excNo;
  int setNo;

  @SuppressWarnings("unchecked")
  Runner(Scn scn, boolean free) {
    this.scn = scn;
    this.free = free;
    this.insts = new StateEvent[Math.max(1, scn.insts)];
    for (int i = 0; i < latches.length; i++) {
      latches[i] = new CountDownLatch(1);
    }
  }

  static final ThreadFactory UF = r -> {
    Thread t = new Thread(r, "user-exec");
    t.setDaemon(true);
    return t;
  };

  private ExecutorService newExec(int n) {
    ThreadFactory f = r -> {
      Thread t = new Thread(r, "user-exec");
      t.setDaemon(true);
      return t;
    };
    ExecutorService x = free ? Executors.newFixedThreadPool(n, f) : new SchedExecutor(n, f);
    execs.add(x);
    return x;
  }

  final List<ExecutorService> execs = new ArrayList<>();

  private void build() {
    LogFactory.sink = !scn.ms.get(0).logs ? null : (n, lv, s, x) -> ms.get(0).logged(n, lv, s, x);
    Map<Integer, ExecutorService> eg = new HashMap<>();
    Map<Integer, Config<Object, Object>> cg = new HashMap<>();
    Map<Integer, GenericStateMachine.Builder<Object, Object>> bg = new HashMap<>();
    for (int i = 0; i < scn.ms.size(); i++) {
      Scn.M c = scn.ms.get(i);
      Mach m = new Mach(i, c);
      ms.add(m);
      EventProcessingStrategy<Object, Object> st = null;
      if (c.strat.endsWith("cfg")) {
        Config<Object, Object> k = c.cfgGroup >= 0 ? cg.get(c.cfgGroup) : null;
        if (k == null) {
          k = new Config<>();
          if (c.cfgGroup >= 0) {
            cg.put(c.cfgGroup, k);
          }
        }
        if (!c.logs) {
          k.withUnmappedEventHandler((ev, sm) -> m.cb("un", "un", ev, sm));
          k.withUnexpectedFlowListener(m);
        }
        if (c.bound != -1) {
          k.withMaxQueueSize(c.bound);
        }
        if (c.cap > 0) {
          k.withEventQueue(new ArrayBlockingQueue<>(c.cap));
        } else if (c.userQueue) {
          k.withEventQueue(new ConcurrentLinkedQueue<>());
        }
        if (c.threadName != null) {
          k.withThreadName(c.threadName);
        }
        if (c.exec.equals("shared")) {
          k.withExecutor(eg.computeIfAbsent(c.execGroup, x -> newExec(1)));
        } else if (!c.exec.equals("none")) {
          k.withExecutor(newExec(c.exec.equals("single") ? 1 : Integer.parseInt(c.exec.substring(4))));
        }
        st = c.strat.equals("cfg") ? EventProcessingStrategyFactory.createDefaultStrategy(k)
            : EventProcessingStrategyFactory.createDropDuplicateStrategy(k);
      } else if (c.strat.equals("default")) {
        st = EventProcessingStrategyFactory.createDefaultStrategy();
      } else if (c.strat.equals("dd")) {
        st = EventProcessingStrategyFactory.createDropDuplicateStrategy();
      }
      GenericStateMachine.Builder<Object, Object> b = c.builderGroup >= 0 ? bg.computeIfAbsent(
          c.builderGroup, x -> new GenericStateMachine.Builder<>())
          : new GenericStateMachine.Builder<>();
      b.setContext(m.ctx).setStateMachineListener(c.listener ? m : null);
      if (st != null) {
        b.setEventProcessingStrategy(st);
      }
      m.sm = b.build();
      m.configure();
    }
  }

  @Override
  String header(String sched) {
    return scn.header(sched);
  }

  @Override
  String describe() {
    return scn.describe();
  }

  @Override
  List<List<Scn.Op>> first() {
    if (!scn.startFirst) {
      return null;
    }
    List<Scn.Op> l = new ArrayList<>();
    for (Mach m : ms) {
      l.add(Scn.op("start", m.id));
    }
    return List.of(l);
  }

  @Override
  List<List<List<Scn.Op>>> phases() {
    return scn.phases;
  }

  @Override
  void op(Scn.Op o) {
    exec(o, null, null);
  }

  @Override
  void last() {
    for (Mach m : ms) {
      obs(m);
    }
  }

  private StateEvent<Object> inst(Scn.Op o, Mach m) {
    if (o.inst < 0) {
      return o.pay ? m.newEvent(o.e) : m.event(o.e);
    }
    if (insts[o.inst] == null) {
      insts[o.inst] = m.event(o.e);
    }
    return insts[o.inst];
  }

  private synchronized int nextFire() {
    return ++fireNo;
  }

  private final HRt same = new HRt("X0");

  private synchronized int nextExc() {
    return ++excNo;
  }

  private synchronized int nextSet() {
    return ++setNo;
  }

  void exec(Scn.Op o, Mach in, int[] progress) {
    Mach m = o.m < 0 ? in : ms.get(o.m);
    switch (o.t) {
      case "fire": {
        Sched.pre();
        int f = nextFire();
        StateEvent<Object> ev = inst(o, m);
        if (o.pay) {
          ev.setPayload("p" + f);
        }
        rec.log("fireC", "m", m.id, "f", f, "e", m.e(ev), "p", p(ev));
        call("fireR", m, () -> m.sm.fire(ev), "f", f);
        break;
      }
      case "setp":
        if (insts[o.inst] != null) {
          insts[o.inst].setPayload(o.pay ? "j" + nextSet() : null);
        }
        break;
      case "start":
        Sched.pre();
        rec.log("startC", "m", m.id);
        call("startR", m, m.sm::start);
        break;
      case "sis": {
        Sched.pre();
        rec.log("sisC", "m", m.id, "s", "s" + o.s);
        State<Object, Object> st = m.state(o.s);
        call("sisR", m, () -> m.sm.startInState(st), "s", "s" + o.s);
        break;
      }
      case "stop":
        Sched.pre();
        rec.log("stopC", "m", m.id);
        call("stopR", m, m.sm::stop);
        break;
      case "setl": {
        StateMachineListener<Object, Object> l = m.listener(o.e);
        Sched.pre();
        rec.log("setlC", "m", m.id, "l", o.e);
        call("setlR", m, () -> m.sm.setStateMachineListener(l));
        break;
      }
      case "obs1":
        obs1(m, o.kind);
        break;
      case "obs":
        obs(m);
        break;
      case "gate":
        if (free) {
          try {
            latches[o.gate].await();
          } catch (InterruptedException e) {
            throw new Sched.Kill();
          }
        } else {
          Sched.blockUntil(() -> open[o.gate]);
        }
        break;
      case "throw": {
        String id = nextExc() + "";
        switch (o.kind) {
          case "ise":
            throw new HIse("X" + id);
          case "chk":
            Runner.<RuntimeException>sneaky(new HChk("X" + id));
            break;
          case "err":
            throw new HErr("E" + id);
          case "same":
            // one exception object for the whole scenario
            throw same;
          default:
            throw new HRt("X" + id);
        }
        break;
      }
      default:
        throw new IllegalArgumentException(o.t);
    }
  }

  private void call(String k, Mach m, Runnable r, Object... kv) {
    String res = "ok";
    try {
      r.run();
    } catch (Sched.Kill x) {
      throw x;
    } catch (Throwable t) {
      res = exName(t);
    }
    Object[] a = new Object[kv.length + 4];
    a[0] = "m";
    a[1] = m.id;
    a[2] = "r";
    a[3] = res;
    System.arraycopy(kv, 0, a, 4, kv.length);
    Sched.pre();
    rec.log(k, a);
  }

  /** One observation. */
  private void obs1(Mach m, String w) {
    Sched.pre();
    rec.log("obsC", "m", m.id, "w", w);
    String v = "";
    int n = 0;
    switch (w) {
      case "st":
        v = m.sm.isStarted() ? "T" : "F";
        break;
      case "en":
        v = m.sm.isEnded() ? "T" : "F";
        break;
      case "cur":
        v = m.s(m.sm.getCurrentState());
        break;
      case "q":
        n = m.sm.getEventQueueSize();
        break;
      default:
        v = m.sm.getContext() == m.ctx ? "T" : "F";
    }
    Sched.pre();
    rec.log("obs", "m", m.id, "w", w, "v", v, "n", n);
  }

  private void obs(Mach m) {
    rec.log("obsC", "m", m.id, "w", "st");
    rec.log("obs", "m", m.id, "w", "st", "v", m.sm.isStarted() ? "T" : "F", "n", 0);
    rec.log("obsC", "m", m.id, "w", "en");
    rec.log("obs", "m", m.id, "w", "en", "v", m.sm.isEnded() ? "T" : "F", "n", 0);
    rec.log("obsC", "m", m.id, "w", "cur");
    rec.log("obs", "m", m.id, "w", "cur", "v", m.s(m.sm.getCurrentState()), "n", 0);
    rec.log("obsC", "m", m.id, "w", "q");
    rec.log("obs", "m", m.id, "w", "q", "v", "", "n", m.sm.getEventQueueSize());
    rec.log("obsC", "m", m.id, "w", "ctx");
    rec.log("obs", "m", m.id, "w", "ctx", "v", m.sm.getContext() == m.ctx ? "T" : "F", "n", 0);
  }

  /** Every scenario's configuration is a valid one: that it is refused is part of the history. */
  @Override
  boolean tryBuild() {
    try {
      build();
      return true;
    } catch (Sched.Kill k) {
      throw k;
    } catch (RuntimeException | StackOverflowError x) {
      rec.log("cfgfail", "m", Math.max(0, ms.size() - 1), "x", exName(x));
      return false;
    }
  }
}
