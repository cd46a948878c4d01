package vh;

import java.io.ByteArrayInputStream;
import java.io.ByteArrayOutputStream;
import java.io.IOException;
import java.io.PrintWriter;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.HashSet;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.Objects;
import java.util.Random;
import java.util.Set;
import java.util.TreeMap;
import java.util.Base64;
import java.util.zip.DeflaterOutputStream;
import java.util.zip.InflaterInputStream;

/**
 * Replays histories generated from ContractMC.tla into the real code: makes the scenario in which the
 * history can happen, and schedules the threads in the order of its steps. A history that comes out as
 * the specification has it needs no further judgement; any other one is written out to be judged.
 * Arguments: in=file out=file tries=n secs=n
 */
final class McRun {

  static final int BOOT = 1;
  static final int WORKER = 10;

  /** A history of the specification, ready to be replayed. */
  static final class Plan {
    Scn scn = new Scn();
    String kind;
    Map<String, Object> cfg;
    int boot = BOOT + 1;
    /** what the clients do, and what is done inside callbacks: of an app or a listener with consumers. */
    final List<List<Object[]>> clients = new ArrayList<>();
    final Map<String, List<List<Object[]>>> acts = new LinkedHashMap<>();
    /** thread and whether the step can be seen. */
    List<int[]> steps = new ArrayList<>();
    List<Map<String, Object>> want = new ArrayList<>();
    String packed;
  }

  @SuppressWarnings("unchecked")
  static Plan plan(String line) {
    Map<String, Object> d = (Map<String, Object>) Json.parse(line);
    Plan p = new Plan();
    p.packed = pack(line);
    Map<String, Object> c = (Map<String, Object>) d.get("cfg");
    p.cfg = c;
    p.kind = (String) d.getOrDefault("kind", "machine");
    for (Object o : (List<Object>) d.get("steps")) {
      List<Object> s = (List<Object>) o;
      p.steps.add(new int[]{num(s.get(0)), "v".equals(s.get(1)) ? 1 : 0});
    }
    if (!p.kind.equals("machine")) {
      calls(p, (List<Object>) d.get("h"));
      return p;
    }
    Scn.M m = new Scn.M();
    List<Object> ss = (List<Object>) c.get("S");
    m.states = new String[ss.size()];
    m.nen = new int[ss.size()];
    m.nex = new int[ss.size()];
    for (int i = 0; i < ss.size(); i++) {
      m.states[i] = "S-" + i;
      m.nen[i] = num(((Map<String, Object>) c.get("nen")).get("s" + i));
      m.nex[i] = num(((Map<String, Object>) c.get("nex")).get("s" + i));
    }
    m.events = new String[]{"E-0", "E-1", "E-2"};
    m.life = c.containsKey("life");
    if (m.life) {
      m.states = Scn.LIFE.clone();
      m.events = Scn.LIFE_EV.clone();
    }
    m.init = idx(c.get("init"));
    Map<String, Object> tab = new TreeMap<>((Map<String, Object>) c.get("tab"));
    tab.forEach((s, row) -> {
      Map<Integer, Integer> r = new LinkedHashMap<>();
      new TreeMap<>((Map<String, Object>) row).forEach((e, to) -> r.put(idx(e),
          "NOOP".equals(to) ? Scn.NOOP : "END".equals(to) ? Scn.END : idx(to)));
      m.tab.put(idx(s), r);
    });
    for (Object o : list(c.get("imm"))) {
      m.imm.add(idx(o));
    }
    for (Object o : list(c.get("conf"))) {
      if (idx(o) != m.init && !m.imm.contains(idx(o))) {
        m.tab.computeIfAbsent(idx(o), q -> new LinkedHashMap<>());
      }
    }
    m.listener = (Boolean) c.get("lis");
    m.lsv = c.containsKey("lsv");
    m.logs = c.containsKey("logs");
    boolean rec = (Boolean) c.get("rec");
    boolean dd = (Boolean) c.get("dd");
    m.strat = rec ? dd ? "ddcfg" : "cfg" : dd ? "dd" : "default";
    m.bound = num(c.get("bound")) > 0 ? num(c.get("bound")) : -1;
    for (Object o : list(c.get("wrap"))) {
      List<Object> w = (List<Object>) o;
      m.wrap.add(w.get(0) + ":" + idx(w.get(1)) + ":" + num(w.get(2)));
    }
    p.scn.fam = "mc";
    p.scn.seed = 0;
    p.scn.ms.add(m);
    p.scn.startFirst = (Boolean) d.get("boot");
    Map<Integer, List<Scn.Op>> clients = new TreeMap<>();
    Map<Integer, List<Object[]>> stacks = new HashMap<>();
    Map<Integer, String> failed = new HashMap<>();
    Map<String, Integer> occ = new HashMap<>();
    for (Object o : (List<Object>) d.get("h")) {
      Map<String, Object> e = (Map<String, Object>) o;
      p.want.add(e);
      String k = (String) e.get("k");
      int th = num(e.get("th"));
      if (th == 0 || k.equals("ln")) {
        continue;
      }
      List<Object[]> st = stacks.computeIfAbsent(th, x -> new ArrayList<>());
      if (k.equals("cb")) {
        String key = (String) e.get("c");
        if (key.equals("en") || key.equals("ex")) {
          key += ":" + idx(e.get("s")) + ":" + num(e.get("i"));
        } else if (key.equals("h")) {
          key = "h:" + failed.get(th);
        }
        int n = occ.merge(key, 1, Integer::sum) - 1;
        st.add(new Object[]{key, n, new ArrayList<Scn.Op>()});
      } else if (k.equals("cbr")) {
        Object[] f = st.remove(st.size() - 1);
        String r = (String) e.get("r");
        List<Scn.Op> ops = (List<Scn.Op>) f[2];
        if (!r.equals("ok")) {
          failed.put(th, (String) f[0]);
          ops.add(Scn.thr(r.startsWith("E") ? "err" : "rt"));
        }
        m.on((String) f[0], (Integer) f[1], ops.toArray(new Scn.Op[0]));
      } else if (k.endsWith("C")) {
        Scn.Op op;
        switch (k) {
          case "fireC":
            op = Scn.fire(0, idx(e.get("e")), !"-".equals(e.get("p")));
            break;
          case "sisC":
            op = Scn.op("sis", 0);
            op.s = idx(e.get("s"));
            break;
          case "setlC":
            op = Scn.op("setl", 0);
            op.e = num(e.get("l"));
            break;
          case "obsC":
            op = Scn.op("obs1", 0);
            op.kind = (String) e.get("w");
            break;
          default:
            op = Scn.op(k.substring(0, k.length() - 1), 0);
        }
        if (!st.isEmpty()) {
          ((List<Scn.Op>) st.get(st.size() - 1)[2]).add(op);
        } else if (th != BOOT) {
          clients.computeIfAbsent(th, x -> new ArrayList<>()).add(op);
        }
        st.add(new Object[]{k, 0, new ArrayList<Scn.Op>()});
      } else {
        st.remove(st.size() - 1);
      }
    }
    List<List<Scn.Op>> cl = new ArrayList<>();
    for (int i = 2; !clients.isEmpty() && i < WORKER; i++) {
      List<Scn.Op> l = clients.remove(i);
      cl.add(l == null ? List.of() : l);
    }
    p.scn.phases.add(cl);
    p.boot = p.scn.startFirst ? BOOT : BOOT + 1;
    return p;
  }

  /** The calls that a history consists of, and those made and exceptions thrown inside of callbacks. */
  @SuppressWarnings("unchecked")
  private static void calls(Plan p, List<Object> h) {
    Map<Integer, List<List<Object[]>>> stacks = new HashMap<>();
    Map<Integer, List<Object[]>> clients = new TreeMap<>();
    Map<String, Integer> occ = new HashMap<>();
    for (Object o : h) {
      Map<String, Object> e = (Map<String, Object>) o;
      p.want.add(e);
      String k = (String) e.get("k");
      int th = num(e.get("th"));
      if (th == 0 || k.equals("beg") || k.equals("end")) {
        continue;
      }
      List<List<Object[]>> st = stacks.computeIfAbsent(th, x -> new ArrayList<>());
      if (k.equals("subC") || k.equals("dlv")) {
        String key = k.equals("dlv") ? String.valueOf(num(e.get("c"))) : e.get("w") + ":" + num(e.get("i"));
        int n = occ.merge(key, 1, Integer::sum) - 1;
        List<List<Object[]>> l = p.acts.computeIfAbsent(key, x -> new ArrayList<>());
        while (l.size() <= n) {
          l.add(new ArrayList<>());
        }
        st.add(l.get(n));
      } else if (k.equals("subR") || k.equals("dlvR")) {
        List<Object[]> l = st.remove(st.size() - 1);
        if (!"ok".equals(e.get("r"))) {
          l.add(new Object[]{"throw", 1});
        }
      } else if (k.equals("int")) {
        (st.isEmpty() ? clients.computeIfAbsent(th, x -> new ArrayList<>()) : st.get(st.size() - 1))
            .add(new Object[]{"int", 0});
      } else if (k.endsWith("C")) {
        Object[] op = {k.equals("ntC") ? e.get("w") : k.substring(0, k.length() - 1),
            e.containsKey("c") ? num(e.get("c")) : 0};
        (st.isEmpty() ? clients.computeIfAbsent(th, x -> new ArrayList<>()) : st.get(st.size() - 1)).add(op);
        st.add(new ArrayList<>());
      } else {
        st.remove(st.size() - 1);
      }
    }
    for (int i = BOOT + 1; !clients.isEmpty() && i < WORKER; i++) {
      List<Object[]> l = clients.remove(i);
      p.clients.add(l == null ? List.of() : l);
    }
  }

  static Exp<?> exp(Plan p) {
    return p.kind.equals("app") ? new AppRun(p) : p.kind.equals("multi") ? new MultiRun(p) : new Runner(p.scn, false);
  }

  static List<Object> list(Object o) {
    return o instanceof List ? (List<Object>) o : List.of();
  }

  static int num(Object o) {
    return ((Number) o).intValue();
  }

  static int idx(Object o) {
    return Integer.parseInt(String.valueOf(o).substring(1));
  }

  static String pack(String s) {
    try {
      ByteArrayOutputStream b = new ByteArrayOutputStream();
      DeflaterOutputStream z = new DeflaterOutputStream(b);
      z.write(s.getBytes(StandardCharsets.UTF_8));
      z.close();
      return Base64.getUrlEncoder().withoutPadding().encodeToString(b.toByteArray());
    } catch (IOException e) {
      throw new IllegalStateException(e);
    }
  }

  static String unpack(String s) {
    try {
      return new String(new InflaterInputStream(new ByteArrayInputStream(
          Base64.getUrlDecoder().decode(s))).readAllBytes(), StandardCharsets.UTF_8);
    } catch (IOException e) {
      throw new IllegalStateException(e);
    }
  }

  /** Schedules the threads so that the steps happen in the given order, as far as that can be done. */
  static final class Follow implements Sched.Strategy {
    final List<int[]> steps;
    final int boot;
    final int mode;
    final Random r;
    int pos;
    boolean diverged;
    int budget = -1;
    final Set<Integer> atPre = new HashSet<>();
    final List<Integer> clients = new ArrayList<>();

    /** mode 0: an internal step takes a thread as far as possible, 1: no further than needed, others: some way. */
    Follow(Plan p, int mode) {
      steps = p.steps;
      boot = p.boot;
      this.mode = mode;
      this.r = new Random(mode * 7919L + steps.size());
    }

    int role(Sched.ST t) {
      if (!t.label.equals("client")) {
        return t.label.equals("driver") ? 0 : WORKER;
      }
      int i = clients.indexOf(t.id);
      if (i < 0) {
        for (Sched.ST x : t.run.all) {
          if (x.label.equals("client") && !clients.contains(x.id)) {
            clients.add(x.id);
          }
        }
        i = clients.indexOf(t.id);
      }
      return boot + i;
    }

    @Override
    public Sched.ST pick(List<Sched.ST> en, Sched.ST cur, int step) {
      while (!diverged && pos < steps.size()) {
        int[] s = steps.get(pos);
        Sched.ST t = null;
        for (Sched.ST x : en) {
          if (role(x) == s[0] && (t == null || x == cur)) {
            t = x;
          }
        }
        if (s[1] == 1) {
          if (t == null) {
            break;
          }
          return t;
        }
        if (t == null || mode == 1 || atPre.contains(t.id)) {
          pos++;
          budget = -1;
          continue;
        }
        if (mode > 1) {
          if (budget < 0) {
            budget = 1 + r.nextInt(6);
          }
          if (budget == 0) {
            pos++;
            budget = -1;
            continue;
          }
          budget--;
        }
        return t;
      }
      return cur != null && (mode < 2 || r.nextInt(5) > 0) ? cur : en.get(r.nextInt(en.size()));
    }

    void logged(Sched.ST t, String k) {
      if (diverged || k.equals("thr") || role(t) == 0) {
        return;
      }
      while (pos < steps.size() && steps.get(pos)[1] == 0) {
        pos++;
      }
      budget = -1;
      if (pos < steps.size() && steps.get(pos)[0] == role(t)) {
        pos++;
      } else {
        diverged = true;
      }
    }
  }

  /** Whether the recorded history is the wanted one, up to the names of threads. */
  @SuppressWarnings("unchecked")
  static boolean same(Plan p, String body) {
    List<Object> got = (List<Object>) Json.parse(body);
    Map<Object, Object> a = new HashMap<>();
    Map<Object, Object> b = new HashMap<>();
    int i = 0;
    boolean died = body.contains("\"r\":\"E");
    for (Object o : got) {
      Map<String, Object> e = (Map<String, Object>) o;
      if ("thr".equals(e.get("k"))) {
        continue;
      }
      if (i >= p.want.size()) {
        return false;
      }
      Map<String, Object> w = p.want.get(i++);
      if (!e.keySet().equals(w.keySet())) {
        return false;
      }
      for (Map.Entry<String, Object> x : w.entrySet()) {
        Object u = e.get(x.getKey());
        Object v = x.getValue();
        if (x.getKey().equals("blk")) {
          if (list(u).size() != list(v).size()) {
            return false;
          }
        } else if (x.getKey().equals("th") || x.getKey().equals("w") && u instanceof Number) {
          // an error ends the handling thread, another one takes its place
          if (!Objects.equals(a.computeIfAbsent(u, q -> v), v) || !(died && num(v) == WORKER)
              && !Objects.equals(b.computeIfAbsent(v, q -> u), u)) {
            return false;
          }
        } else if (!norm(u).equals(norm(v))) {
          return false;
        }
      }
    }
    return i == p.want.size();
  }

  static String norm(Object o) {
    return o instanceof Number ? String.valueOf(((Number) o).longValue())
        : o instanceof Map && ((Map<?, ?>) o).isEmpty() ? "[]" : String.valueOf(o);
  }

  static Exp<?> make(String sched) {
    return exp(plan(unpack(sched.split(":", 3)[2])));
  }

  public static void main(String[] a) throws Exception {
    Map<String, String> o = new HashMap<>();
    for (String x : a) {
      int i = x.indexOf('=');
      o.put(x.substring(0, i), x.substring(i + 1));
    }
    int tries = Integer.parseInt(o.getOrDefault("tries", "4"));
    int part = Integer.parseInt(o.getOrDefault("part", "0"));
    int parts = Integer.parseInt(o.getOrDefault("parts", "1"));
    long deadline = System.currentTimeMillis() + 1000L * Integer.parseInt(o.getOrDefault("secs", "60"));
    int n = 0;
    int same = 0;
    int runs = 0;
    int other = 0;
    int no = 0;
    Set<String> seen = new HashSet<>();
    try (PrintWriter out = new PrintWriter(Files.newBufferedWriter(Paths.get(o.get("out")),
        StandardCharsets.UTF_8)); java.io.BufferedReader in = Files.newBufferedReader(Paths.get(o.get("in")))) {
      for (String l = in.readLine(); l != null && System.currentTimeMillis() < deadline; l = in.readLine()) {
        if (no++ % parts != part) {
          continue;
        }
        n++;
        for (int mode = 0; mode < tries; mode++) {
          Plan p = plan(l);
          Follow f = new Follow(p, mode);
          Exp<?> run = exp(p);
          String body = run.run(f);
          runs++;
          if (same(p, body)) {
            same++;
            break;
          }
          if (run.realBlocks) {
            continue;
          }
          if (seen.add(run.header("") + body)) {
            other++;
            String d = "follow:" + mode + ":" + p.packed;
            out.println("{\"cfg\":" + run.header(d) + ",\"ev\":" + body + "}");
          }
        }
      }
    }
    System.out.println("{\"scenarios\":" + n + ",\"behaviours\":" + n + ",\"followed\":" + same + ",\"runs\":" + runs
        + ",\"other\":" + other + "}");
    System.out.flush();
    Runtime.getRuntime().halt(0);
  }

  private McRun() {
  }
}
