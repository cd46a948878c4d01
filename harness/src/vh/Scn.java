package vh;

import java.util.ArrayList;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.TreeSet;

/** A scenario: machines, their configuration, what callbacks do, and the calls of the clients. */
public final class Scn {

  static final int NOOP = -1;
  static final int END = -2;
  /** Actions one by one, all in one call, all in one call with nulls between, after configuring. */
  static final int TOGETHER = 1;
  static final int NULLS = 2;
  static final int LATE = 3;
  static final String[] LIFE = {"UNINITIALISED", "STARTING", "STARTED", "STOPPING", "STOPPED"};
  static final String[] LIFE_EV = {"start", "complete", "stop", "error", "pause"};
  static final int[][] LIFE_TAB = {{0, 0, 1}, {1, 1, 2}, {1, 3, 4}, {2, 2, 3}, {2, 3, 4}, {3, 1, 4}, {3, 3, 4},
      {4, 0, 1}, {4, 2, END}};

  static final class Op {
    String t;
    int m;
    int e;
    int s;
    boolean pay;
    String kind = "";
    /** event instance: -1 a fresh one, otherwise the index of an instance kept by the scenario. */
    int inst = -1;
    int gate;

    Op(String t, int m) {
      this.t = t;
      this.m = m;
    }

    @Override
    public String toString() {
      switch (t) {
        case "fire":
          return "fire(m" + m + ",e" + e + (pay ? ",payload" : "") + (inst >= 0 ? ",inst" + inst : "")
              + ")";
        case "sis":
          return "startInState(m" + m + ",s" + s + ")";
        case "setp":
          return "setPayload(inst" + inst + (pay ? ",new)" : ",null)");
        case "throw":
          return "throw(" + kind + ")";
        case "gate":
          return "gate" + gate;
        case "setl":
          return "setListener(m" + m + "," + e + ")";
        default:
          return t + "(m" + m + ")";
      }
    }
  }

  static Op fire(int m, int e, boolean pay) {
    Op o = new Op("fire", m);
    o.e = e;
    o.pay = pay;
    return o;
  }

  static Op op(String t, int m) {
    return new Op(t, m);
  }

  static Op thr(String kind) {
    Op o = new Op("throw", 0);
    o.kind = kind;
    return o;
  }

  static Op gate(int g) {
    Op o = new Op("gate", 0);
    o.gate = g;
    return o;
  }

  static final class M {
    String[] states;
    String[] events;
    int init;
    /** state -> event -> target. */
    Map<Integer, Map<Integer, Integer>> tab = new LinkedHashMap<>();
    TreeSet<Integer> imm = new TreeSet<>();
    int[] nen;
    int[] nex;
    boolean listener = true;
    /** the listener is replaced now and then. */
    boolean lsv;
    /** nothing is given for what is unexpected: it is logged. */
    boolean logs;
    /** builder, default, cfg, dd, ddcfg. */
    String strat = "cfg";
    int bound = -1;
    /** capacity of a user queue, 0 for none. */
    int cap;
    boolean userQueue;
    /** none, single, pool<n>, shared. */
    String exec = "none";
    String threadName;
    /** wrap: indexes of actions wrapped in HandleExceptionAction, keys as in acts. */
    java.util.Set<String> wrap = new java.util.TreeSet<>();
    /** every action equals every other one. */
    boolean eqActs;
    /** how a state is given its actions. */
    int append;
    boolean customEvents;
    boolean customStates;
    boolean freshStates;
    boolean freshEvents = true;
    /** set up by LifecycleStateMachineUtil, as its documentation says. */
    boolean life;
    /** machines with this flag have the same state and event objects. */
    boolean share;
    /** callback key (en:s:i, ex:s:i, beg, end, un, exc, aft, bef, h...) -> per occurrence -> ops. */
    Map<String, List<List<Op>>> acts = new LinkedHashMap<>();
    int cfgGroup = -1;
    int builderGroup = -1;
    int execGroup = -1;

    boolean recorded() {
      return logs || strat.endsWith("cfg");
    }

    List<Op> act(String key, int n) {
      List<List<Op>> l = acts.get(key);
      return l == null || n >= l.size() || l.get(n) == null ? List.of() : l.get(n);
    }

    void on(String key, int n, Op... ops) {
      List<List<Op>> l = acts.computeIfAbsent(key, k -> new ArrayList<>());
      while (l.size() <= n) {
        l.add(null);
      }
      l.set(n, List.of(ops));
    }

    String sn(int s) {
      return s == NOOP ? "NOOP" : s == END ? "END" : "s" + s;
    }

    Map<String, Object> json(int id) {
      Map<String, Object> r = new LinkedHashMap<>();
      List<String> ss = new ArrayList<>();
      Map<String, Object> en = new LinkedHashMap<>();
      Map<String, Object> ex = new LinkedHashMap<>();
      for (int i = 0; i < states.length; i++) {
        ss.add("s" + i);
        en.put("s" + i, nen[i]);
        ex.put("s" + i, nex[i]);
      }
      r.put("S", ss);
      r.put("init", "s" + init);
      Map<String, Object> t = new LinkedHashMap<>();
      List<String> conf = new ArrayList<>();
      tab.forEach((s, m) -> {
        conf.add(sn(s));
        Map<String, Object> row = new LinkedHashMap<>();
        m.forEach((e, to) -> row.put("e" + e, sn(to)));
        t.put(sn(s), row);
      });
      if (!conf.contains(sn(init))) {
        conf.add(sn(init));
      }
      for (int i : imm) {
        if (!conf.contains(sn(i))) {
          conf.add(sn(i));
        }
      }
      r.put("conf", conf);
      r.put("tab", t);
      List<String> im = new ArrayList<>();
      imm.forEach(i -> im.add("s" + i));
      r.put("imm", im);
      r.put("nen", en);
      r.put("nex", ex);
      r.put("lis", listener);
      if (lsv) {
        r.put("lsv", true);
      }
      if (logs) {
        r.put("logs", true);
      }
      r.put("rec", recorded());
      r.put("dd", strat.startsWith("dd"));
      r.put("bound", bound > 0 ? bound : cap);
      int w = 1;
      if (exec.startsWith("pool")) {
        w = Integer.parseInt(exec.substring(4));
      }
      r.put("w", w);
      r.put("uexec", recorded() && !exec.equals("none"));
      r.put("tn", threadName == null ? "state-machine" : threadName);
      List<Object> wr = new ArrayList<>();
      for (String k : wrap) {
        String[] x = k.split(":");
        wr.add(List.of(x[0], "s" + x[1], Integer.parseInt(x[2])));
      }
      r.put("wrap", wr);
      r.put("id", id);
      return r;
    }
  }

  String fam;
  long seed;
  List<M> ms = new ArrayList<>();
  /** phases; each has clients; each client has ops. */
  List<List<List<Op>>> phases = new ArrayList<>();
  boolean startFirst = true;
  int insts;

  String header(String sched) {
    Map<String, Object> r = new LinkedHashMap<>();
    r.put("fam", fam);
    r.put("seed", seed);
    r.put("sched", sched);
    List<Object> m = new ArrayList<>();
    for (int i = 0; i < ms.size(); i++) {
      m.add(ms.get(i).json(i));
    }
    r.put("m", m);
    StringBuilder b = new StringBuilder();
    Rec.val(b, r);
    return b.toString();
  }

  String describe() {
    StringBuilder b = new StringBuilder();
    for (int i = 0; i < ms.size(); i++) {
      M m = ms.get(i);
      b.append("machine m").append(i).append(" states=").append(List.of(m.states)).append(" events=")
          .append(List.of(m.events)).append(" init=s").append(m.init).append(" table=").append(m.tab)
          .append(" immediate=").append(m.imm).append(" strategy=").append(m.strat).append(" bound=")
          .append(m.bound).append(" cap=").append(m.cap).append(" exec=").append(m.exec)
          .append(" listener=").append(m.listener).append(" groups=").append(m.cfgGroup).append('/')
          .append(m.builderGroup).append('/').append(m.execGroup)
          .append(" custom=").append(m.customStates).append('/').append(m.customEvents)
          .append(" acts=").append(m.acts).append("; ");
    }
    b.append(" startFirst=").append(startFirst).append(" phases=").append(phases);
    return b.toString();
  }
}
