package vh;

import java.io.PrintWriter;
import java.nio.charset.StandardCharsets;
import java.nio.file.Files;
import java.nio.file.Paths;
import java.util.HashMap;
import java.util.HashSet;
import java.util.List;
import java.util.Map;
import java.util.Random;
import java.util.Set;
import java.util.TreeSet;

/**
 * Explores schedules of generated scenarios and writes the distinct traces.
 * Arguments: fams=a,b seed=1 secs=5 max=1000 perScn=40 dfs=0 out=file
 */
public final class Main {

  static PrintWriter out;
  static int runs;
  static int distinct;
  static int aborted;
  static int real;
  static long decisions;

  public static void main(String[] a) throws Exception {
    Map<String, String> o = new HashMap<>();
    for (String x : a) {
      int i = x.indexOf('=');
      o.put(x.substring(0, i), x.substring(i + 1));
    }
    if (o.containsKey("replay")) {
      // fam/seed/sched
      String[] p = o.get("replay").split("/", 3);
      Exp<?> r = make(p[0], Long.parseLong(p[1]), p[2]);
      System.out.println(r.describe());
      String b = r.run(Strats.parse(p[2]));
      for (String e : b.substring(1, b.length() - 1).split("(?<=\\}),")) {
        System.out.println(e);
      }
      System.exit(0);
    }
    if (o.containsKey("replays")) {
      out = new PrintWriter(Files.newBufferedWriter(Paths.get(o.get("out")), StandardCharsets.UTF_8));
      for (String l : Files.readAllLines(Paths.get(o.get("replays")))) {
        String[] p = l.split("/", 3);
        if (p.length == 3) {
          one(p[0], Long.parseLong(p[1]), p[2], Strats.parse(p[2]), new HashSet<>());
        }
      }
      out.close();
      System.out.flush();
      Runtime.getRuntime().halt(0);
    }
    long deadline = System.currentTimeMillis() + (long) (Double.parseDouble(o.get("secs")) * 1000);
    int max = Integer.parseInt(o.get("max"));
    int per = Integer.parseInt(o.getOrDefault("perScn", "40"));
    int dfs = Integer.parseInt(o.getOrDefault("dfs", "0"));
    int stride = Integer.parseInt(o.getOrDefault("stride", "1"));
    String[] fams = o.get("fams").split(",");
    long seed = Long.parseLong(o.get("seed"));
    out = new PrintWriter(Files.newBufferedWriter(Paths.get(o.get("out")), StandardCharsets.UTF_8));
    Thread guard = new Thread(() -> {
      try {
        Thread.sleep(Math.max(0, deadline - System.currentTimeMillis()) + 20_000);
      } catch (InterruptedException e) {
        return;
      }
      System.out.println("{\"stuck\":true}");
      System.out.flush();
      Runtime.getRuntime().halt(3);
    });
    guard.setDaemon(true);
    guard.start();
    int scn = 0;
    for (long k = 0; distinct < max && System.currentTimeMillis() < deadline; k++) {
      String fam = fams[(int) (k % fams.length)];
      scn++;
      explore(fam, seed + k * stride, per, dfs, max, deadline);
    }
    out.close();
    System.out.println("{\"scenarios\":" + scn + ",\"runs\":" + runs + ",\"traces\":" + distinct
        + ",\"aborted\":" + aborted + ",\"realBlocks\":" + real + ",\"decisions\":" + decisions + ",\"failed\":" + failed + "}");
    System.out.flush();
    Runtime.getRuntime().halt(0);
  }

  static void explore(String fam, long seed, int per, int dfs, int max, long deadline) {
    Set<String> seen = new HashSet<>();
    Random r = new Random(seed ^ 0x5DEECE66DL);
    int len = 50;
    int miss = 0;
    if (dfs > 0) {
      List<Integer> p = List.of();
      int n = 0;
      while (p != null && n++ < per && distinct < max && System.currentTimeMillis() < deadline) {
        StringBuilder b = new StringBuilder("dfs:");
        for (int i = 0; i < p.size(); i++) {
          b.append(i == 0 ? "" : ",").append(p.get(i));
        }
        Strats.Dfs st = new Strats.Dfs(p);
        one(fam, seed, b.toString(), st, seen);
        p = st.next(dfs);
      }
      return;
    }
    for (int i = 0; i < per && miss < 12 && distinct < max && System.currentTimeMillis() < deadline; i++) {
      String d;
      long rs = r.nextInt(1_000_000);
      if (i == 0) {
        d = "np:" + rs + ":";
      } else {
        double x = r.nextDouble();
        if (x < 0.5) {
          int k = 1 + r.nextInt(3);
          TreeSet<Integer> at = new TreeSet<>();
          for (int j = 0; j < k; j++) {
            at.add(r.nextInt(Math.max(1, len)));
          }
          d = "np:" + rs + ":" + at.toString().replaceAll("[\\[\\] ]", "");
        } else if (x < 0.75) {
          d = "pct:" + rs + ":" + (1 + r.nextInt(3)) + ":" + len;
        } else {
          d = "rnd:" + rs + ":" + (r.nextBoolean() ? "0.5" : "0.1");
        }
      }
      int before = seen.size();
      int steps = one(fam, seed, d, Strats.parse(d), seen);
      len = Math.max(10, Math.max(len / 2, steps));
      miss = seen.size() == before ? miss + 1 : 0;
    }
  }

  static Exp<?> make(String fam, long seed, String d) {
    if (fam.equals("mc")) {
      return McRun.make(d);
    }
    LogFactory.sink = null;
    if (fam.startsWith("log")) {
      return new LogRun(fam, seed);
    }
    if (fam.startsWith("app")) {
      return new AppRun(fam, seed);
    }
    if (fam.equals("eq")) {
      return new EqRun(fam, seed);
    }
    if (fam.startsWith("multi")) {
      return new MultiRun(fam, seed);
    }
    return new Runner(Gen.make(fam, seed), false);
  }

  static int failed;

  static int one(String fam, long seed, String d, Sched.Strategy st, Set<String> seen) {
    try {
      return run(fam, seed, d, st, seen);
    } catch (RuntimeException | LinkageError x) {
      if (failed++ == 0) {
        x.printStackTrace(System.out);
      }
      return 0;
    }
  }

  private static int run(String fam, long seed, String d, Sched.Strategy st, Set<String> seen) {
    Exp<?> run = make(fam, seed, d);
    String body = run.run(st);
    // a thread that was found blocked in a way the scheduler does not control: only keep the trace
    // when that is what the code does, and not when the machine was slow
    for (int i = 0; i < 3 && run.realBlocks && !d.startsWith("dfs"); i++) {
      run = make(fam, seed, d);
      body = run.run(Strats.parse(d));
    }
    runs++;
    decisions += run.steps;
    if (run.aborted) {
      aborted++;
    }
    if (run.realBlocks) {
      real++;
    }
    if (seen.add(body)) {
      distinct++;
      out.println("{\"cfg\":" + run.header(d) + ",\"ev\":" + body + "}");
    }
    return run.steps;
  }

  private Main() {
  }
}
