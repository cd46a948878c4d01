package vh;

import java.util.ArrayList;
import java.util.IdentityHashMap;
import java.util.List;
import java.util.Map;

/** Totally ordered log of one run. */
public final class Rec {

  private final List<String> ev = new ArrayList<>();
  private boolean closed;
  private final Map<Thread, Integer> ids = new IdentityHashMap<>();

  synchronized void log(String k, Object... kv) {
    if (closed) {
      return;
    }
    StringBuilder b = new StringBuilder(96);
    b.append("{\"k\":\"").append(k).append('"');
    b.append(",\"th\":").append(tid());
    for (int i = 0; i < kv.length; i += 2) {
      b.append(",\"").append(kv[i]).append("\":");
      val(b, kv[i + 1]);
    }
    b.append('}');
    ev.add(b.toString());
    Sched.ST st = Sched.ME.get();
    if (st != null && st.run.strategy instanceof McRun.Follow) {
      ((McRun.Follow) st.run.strategy).logged(st, k);
    }
  }

  /** Logs before anything else a thread does in a callback, once per thread. */
  synchronized boolean firstSeen(Thread t) {
    return seen.add(t);
  }

  private final java.util.Set<Thread> seen = new java.util.HashSet<>();

  int tid() {
    int t = Sched.tid();
    if (t >= 0) {
      return t;
    }
    return ids.computeIfAbsent(Thread.currentThread(), k -> 100 + ids.size());
  }

  synchronized int idOf(Thread t, Sched.Run run) {
    if (run != null) {
      for (Sched.ST st : run.all) {
        if (st.thread == t) {
          return st.id;
        }
      }
    }
    Integer i = ids.get(t);
    return i == null ? -1 : i;
  }

  synchronized void close() {
    closed = true;
  }

  synchronized boolean isClosed() {
    return closed;
  }

  synchronized int size() {
    return ev.size();
  }

  synchronized String body() {
    return "[" + String.join(",", ev) + "]";
  }

  static void val(StringBuilder b, Object o) {
    if (o instanceof Number || o instanceof Boolean) {
      b.append(o);
    } else if (o instanceof List) {
      b.append('[');
      String sep = "";
      for (Object x : (List<?>) o) {
        b.append(sep);
        val(b, x);
        sep = ",";
      }
      b.append(']');
    } else if (o instanceof Map) {
      b.append('{');
      String sep = "";
      for (Map.Entry<?, ?> x : ((Map<?, ?>) o).entrySet()) {
        b.append(sep);
        val(b, x.getKey());
        b.append(':');
        val(b, x.getValue());
        sep = ",";
      }
      b.append('}');
    } else {
      b.append('"');
      String s = String.valueOf(o);
      for (int i = 0; i < s.length(); i++) {
        char c = s.charAt(i);
        if (c == '"' || c == '\\') {
          b.append('\\').append(c);
        } else if (c < 32 || c > 126) {
          b.append(String.format("\\u%04x", (int) c));
        } else {
          b.append(c);
        }
      }
      b.append('"');
    }
  }
}
