package vh;

import java.util.ArrayList;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import java.util.Random;
import java.util.TreeSet;

/** Schedules, each described by a string from which it can be made again. */
final class Strats {

  static Sched.Strategy parse(String d) {
    String[] p = d.split(":", -1);
    switch (p[0]) {
      case "np": {
        TreeSet<Integer> at = new TreeSet<>();
        for (String s : p[2].split(",")) {
          if (!s.isEmpty()) {
            at.add(Integer.parseInt(s));
          }
        }
        return new Np(Long.parseLong(p[1]), at);
      }
      case "rnd":
        return new Rnd(Long.parseLong(p[1]), Double.parseDouble(p[2]));
      case "pct":
        return new Pct(Long.parseLong(p[1]), Integer.parseInt(p[2]), Integer.parseInt(p[3]));
      case "dfs": {
        List<Integer> l = new ArrayList<>();
        for (String s : p[1].split(",")) {
          if (!s.isEmpty()) {
            l.add(Integer.parseInt(s));
          }
        }
        return new Dfs(l);
      }
      case "follow": {
        String[] q = d.split(":", 3);
        return new McRun.Follow(McRun.plan(McRun.unpack(q[2])), Integer.parseInt(q[1]));
      }
      default:
        throw new IllegalArgumentException(d);
    }
  }

  /** Runs a thread until it blocks, except at the given steps. */
  static final class Np implements Sched.Strategy {
    final Random r;
    final TreeSet<Integer> at;

    Np(long seed, TreeSet<Integer> at) {
      this.r = new Random(seed);
      this.at = at;
    }

    @Override
    public Sched.ST pick(List<Sched.ST> en, Sched.ST cur, int step) {
      if (cur == null) {
        return en.get(r.nextInt(en.size()));
      }
      if (at.contains(step)) {
        Sched.ST n;
        do {
          n = en.get(r.nextInt(en.size()));
        } while (n == cur);
        return n;
      }
      return cur;
    }
  }

  static final class Rnd implements Sched.Strategy {
    final Random r;
    final double p;

    Rnd(long seed, double p) {
      this.r = new Random(seed);
      this.p = p;
    }

    @Override
    public Sched.ST pick(List<Sched.ST> en, Sched.ST cur, int step) {
      if (cur != null && r.nextDouble() >= p) {
        return cur;
      }
      return en.get(r.nextInt(en.size()));
    }
  }

  static final class Pct implements Sched.Strategy {
    final Random r;
    final Map<Integer, Integer> prio = new HashMap<>();
    final TreeSet<Integer> change = new TreeSet<>();
    int low = -1;

    Pct(long seed, int d, int len) {
      r = new Random(seed);
      for (int i = 0; i < d; i++) {
        change.add(r.nextInt(Math.max(1, len)));
      }
    }

    @Override
    public Sched.ST pick(List<Sched.ST> en, Sched.ST cur, int step) {
      for (Sched.ST t : en) {
        prio.computeIfAbsent(t.id, k -> r.nextInt(1 << 20));
      }
      Sched.ST best = best(en);
      if (change.contains(step)) {
        prio.put(best.id, low--);
        best = best(en);
      }
      return best;
    }

    private Sched.ST best(List<Sched.ST> en) {
      Sched.ST b = null;
      for (Sched.ST t : en) {
        if (b == null || prio.get(t.id) > prio.get(b.id)) {
          b = t;
        }
      }
      return b;
    }
  }

  /** Follows given choices, then goes on without preemption; remembers the alternatives it saw. */
  static final class Dfs implements Sched.Strategy {
    final List<Integer> prefix;
    final List<int[]> seen = new ArrayList<>();

    Dfs(List<Integer> prefix) {
      this.prefix = prefix;
    }

    @Override
    public Sched.ST pick(List<Sched.ST> en, Sched.ST cur, int step) {
      int def = cur == null ? 0 : en.indexOf(cur);
      int c = seen.size() < prefix.size() ? prefix.get(seen.size()) : def;
      if (c >= en.size()) {
        c = def;
      }
      seen.add(new int[]{c, en.size(), cur == null ? -1 : def});
      return en.get(c);
    }

    /** The next choice prefix with at most bound preemptions, or null when all have been run. */
    List<Integer> next(int bound) {
      for (int i = seen.size() - 1; i >= 0; i--) {
        int used = 0;
        for (int j = 0; j < i; j++) {
          int[] s = seen.get(j);
          if (s[2] >= 0 && s[0] != s[2]) {
            used++;
          }
        }
        int[] s = seen.get(i);
        // order of alternatives: default first, then the others by index
        int rank = s[2] < 0 ? s[0] : s[0] == s[2] ? 0 : s[0] < s[2] ? s[0] + 1 : s[0];
        if (rank + 1 < s[1] && (s[2] < 0 || used < bound)) {
          int nr = rank + 1;
          int c = s[2] < 0 ? nr : nr <= s[2] ? nr - 1 : nr;
          List<Integer> p = new ArrayList<>();
          for (int j = 0; j < i; j++) {
            p.add(seen.get(j)[0]);
          }
          p.add(c);
          return p;
        }
      }
      return null;
    }
  }

  private Strats() {
  }
}
