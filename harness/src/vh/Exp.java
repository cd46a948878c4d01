package vh;

import java.util.ArrayList;
import java.util.List;

/** One experiment on the real code: phases of concurrent clients, run under a schedule and recorded. */
abstract class Exp<O> {

  final Rec rec = new Rec();
  final boolean[] open = new boolean[16];
  boolean aborted;
  boolean realBlocks;
  int steps;

  /** Makes the objects under test; false if that ends the history. */
  abstract boolean tryBuild();

  abstract String header(String sched);

  abstract String describe();

  /** Clients of an extra first phase, null for none. */
  List<List<O>> first() {
    return null;
  }

  abstract List<List<List<O>>> phases();

  Runnable hook;

  abstract void op(O o);

  /** Observations made at the very end. */
  void last() {
  }

  /** Runs under the given strategy; returns the trace body. */
  String run(Sched.Strategy strategy) {
    Sched.Run r = new Sched.Run(strategy, 200_000);
    Sched.startWatchdog();
    List<Sched.ST> threads = new ArrayList<>();
    try {
      Sched.ST d = r.newThread("driver", Thread.currentThread());
      d.state = Sched.S.RUNNING;
      d.awake = true;
      r.driver = d;
      r.running = d;
      Sched.ME.set(d);
      Sched.cur = r;
      if (!tryBuild()) {
        return rec.body();
      }
      boolean ok = true;
      List<List<O>> first = first();
      for (int ph = first != null ? -1 : 0; ok && ph < phases().size(); ph++) {
        List<Sched.ST> cl = new ArrayList<>();
        for (List<O> ops : ph < 0 ? first : phases().get(ph)) {
          Sched.ST[] h = new Sched.ST[1];
          Thread t = new Thread(() -> client(r, h[0], ops), "client");
          t.setDaemon(true);
          h[0] = r.newThread("client", t);
          cl.add(h[0]);
          t.start();
        }
        threads.addAll(cl);
        ok = quiet(r, ph, threads);
        if (ph >= 0 && ph < open.length) {
          open[ph] = true;
        }
      }
      if (ok) {
        ok = quiet(r, 98, threads);
        java.util.Arrays.fill(open, true);
      }
      if (ok) {
        ok = quiet(r, 99, threads);
      }
      if (hook != null) {
        hook.run();
      }
      if (ok) {
        last();
      }
      aborted = !ok;
    } finally {
      realBlocks = r.realBlocks;
      steps = r.step;
      rec.close();
      r.end();
      Sched.cur = null;
      Sched.ME.remove();
      for (Sched.ST t : r.all) {
        if (t.thread != null && t.thread != Thread.currentThread()
            && t.state != Sched.S.REAL_BLOCKED) {
          try {
            t.thread.join(200);
          } catch (InterruptedException e) {
            // ignore
          }
        }
      }
    }
    return rec.body();
  }

  private boolean quiet(Sched.Run r, int ph, List<Sched.ST> clients) {
    if (!r.awaitQuiet()) {
      rec.log("abort");
      return false;
    }
    List<Integer> blk = new ArrayList<>();
    for (Sched.ST t : clients) {
      if (t.state != Sched.S.DONE) {
        blk.add(t.id);
      }
    }
    rec.log("quiet", "ph", ph, "blk", blk);
    return true;
  }

  private void client(Sched.Run r, Sched.ST st, List<O> ops) {
    Sched.ME.set(st);
    try {
      r.park(st);
      for (O o : ops) {
        op(o);
      }
    } catch (Sched.Kill k) {
      // over
    } finally {
      r.finished(st);
    }
  }
}
