package vh;

import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.api.StateAction;
import java.util.ArrayList;
import java.util.Collections;
import java.util.HashMap;
import java.util.HashSet;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.Random;

/** Compares named states and named events. */
final class EqRun extends Exp<Integer> {

  final String fam;
  final long seed;
  private final Random r;
  private final List<String> names = new ArrayList<>();

  EqRun(String fam, long seed) {
    this.fam = fam;
    this.seed = seed;
    r = new Random(seed * 1_000_003L + fam.hashCode());
    String[] base = {"", " ", "a", "A", "Aa", "BB", "AaAa", "AaBB", "BBAa", "BBBB", "\u00e9", "e\u0301", "null",
        "_END_", "_NOOP_", "_immediate_", "\ud83d\ude00", "x".repeat(300), "x".repeat(299) + "y", "a\u0000", "a\n"};
    for (int i = 0; i < 4; i++) {
      names.add(base[r.nextInt(base.length)]);
    }
    for (int i = 0; i < 5; i++) {
      names.add(mutate(names.get(r.nextInt(names.size()))));
    }
    String s = random();
    names.add(s);
    names.add(collide(s));
  }

  private String random() {
    StringBuilder b = new StringBuilder();
    int n = 2 + r.nextInt(6);
    for (int i = 0; i < n; i++) {
      b.append((char) (r.nextInt(4) == 0 ? r.nextInt(1000) : 'A' + r.nextInt(50)));
    }
    return b.toString();
  }

  /** Another string of the same length and hash code. */
  private static String collide(String s) {
    char[] c = s.toCharArray();
    for (int i = 0; i + 1 < c.length; i++) {
      if (c[i] > 0 && c[i + 1] < 60000) {
        c[i]--;
        c[i + 1] += 31;
        return new String(c);
      }
    }
    return s;
  }

  private String mutate(String s) {
    switch (r.nextInt(8)) {
      case 0:
        return s + " ";
      case 1:
        return " " + s;
      case 2:
        return s.toUpperCase();
      case 3:
        return s.toLowerCase();
      case 4:
        return new StringBuilder(s).reverse().toString();
      case 5:
        return collide(s);
      case 6:
        return s.isEmpty() ? "b" : s.substring(1);
      default:
        return s + (char) r.nextInt(300);
    }
  }

  @Override
  boolean tryBuild() {
    return true;
  }

  @Override
  String header(String sched) {
    Map<String, Object> m = new LinkedHashMap<>();
    m.put("fam", fam);
    m.put("seed", seed);
    m.put("sched", sched);
    Map<String, Object> a = new LinkedHashMap<>();
    a.put("id", 0);
    m.put("m", List.of(a));
    StringBuilder b = new StringBuilder();
    Rec.val(b, m);
    return b.toString();
  }

  @Override
  String describe() {
    return "names=" + names;
  }

  @Override
  List<List<List<Integer>>> phases() {
    return List.of(List.of(List.of(0)));
  }

  private static String hex(String s) {
    StringBuilder b = new StringBuilder("n");
    for (char c : s.toCharArray()) {
      b.append(Integer.toHexString(c)).append('.');
    }
    return b.length() > 60 ? b.substring(0, 20) + s.length() + "-" + s.chars().mapToLong(x -> x).reduce(7, (p, q)
        -> p * 1_000_003L + q) : b.toString();
  }

  @SuppressWarnings("unchecked")
  private NamedState<Object, Object> state(String n) {
    NamedState<Object, Object> s = new NamedState<>(new String(n));
    StateAction<Object, Object> a = (e, m) -> {
    };
    if (r.nextBoolean()) {
      s.appendEntryActions(a);
    }
    if (r.nextBoolean()) {
      s.appendExitActions(a, a);
    }
    return s;
  }

  private NamedStateEvent<Object> event(String n) {
    NamedStateEvent<Object> e = new NamedStateEvent<>(new String(n));
    switch (r.nextInt(3)) {
      case 0:
        e.setPayload(null);
        break;
      case 1:
        e.setPayload(r.nextInt(3));
        break;
      default:
    }
    return e;
  }

  @Override
  void op(Integer o) {
    for (int k = 0; k < 2; k++) {
      for (String a : names) {
        for (String b : names) {
          Object x = k == 0 ? state(a) : event(a);
          Object y = k == 0 ? state(b) : event(b);
          Object other = k == 0 ? event(a) : state(a);
          String res = "ok";
          boolean eq = false;
          boolean sym = false;
          boolean hash = false;
          boolean map = false;
          boolean again = true;
          boolean odd = false;
          try {
            eq = x.equals(y);
            sym = y.equals(x);
            int h = x.hashCode();
            hash = h == y.hashCode();
            Map<Object, Integer> m = new HashMap<>();
            m.put(x, 1);
            map = m.containsKey(y) && new HashSet<>(Collections.singleton(y)).contains(x);
            if (k == 0) {
              ((NamedState<Object, Object>) x).appendEntryActions((e, sm) -> {
              });
            } else {
              ((NamedStateEvent<Object>) x).setPayload("later");
            }
            again = x.equals(y) == eq && x.hashCode() == h && x.equals(x);
            odd = x.equals(null) || x.equals(other) || x.equals(a);
          } catch (Throwable t) {
            res = Runner.exName(t);
          }
          rec.log("eq", "m", 0, "w", k == 0 ? "state" : "event", "a", hex(a), "b", hex(b), "eq", eq, "sym", sym,
              "hash", hash, "map", map, "again", again, "odd", odd, "r", res);
        }
      }
    }
  }
}
