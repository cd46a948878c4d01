package vh;

import java.util.ArrayList;
import java.util.IdentityHashMap;
import java.util.List;
import java.util.Map;
import java.util.Set;
import java.util.concurrent.CountDownLatch;
import java.util.concurrent.ExecutorService;
import java.util.concurrent.Executors;
import java.util.concurrent.Semaphore;
import java.util.concurrent.ThreadFactory;
import java.util.concurrent.TimeUnit;
import java.util.function.BooleanSupplier;

/**
 * Deterministic cooperative scheduler. While a run is active exactly one controlled thread runs at a
 * time; control can change hands at the points that {@link Instrument} inserted in the code under test
 * ({@link #y}), at blocking operations and at the end of a thread. A controlled thread that blocks for
 * real (in an operation the instrumentation does not know) is noticed by its thread state.
 */
public final class Sched {

  /** Unwinds a controlled thread when its run is over. */
  public static final class Kill extends Error {
    Kill() {
      super("run over", null, false, false);
    }
  }

  enum S {READY, RUNNING, BLOCKED, REAL_BLOCKED, DONE}

  static final class ST {
    final Run run;
    final int id;
    final String label;
    volatile boolean interrupted;
    Thread thread;
    volatile S state = S.READY;
    volatile boolean awake;
    boolean mute;
    volatile BooleanSupplier cond;
    boolean lowest;
    volatile boolean killed;
    final Semaphore sem = new Semaphore(0);

    ST(Run run, int id, String label) {
      this.run = run;
      this.id = id;
      this.label = label;
    }
  }

  /** Chooses the next thread. cur is null when the current thread cannot continue. */
  interface Strategy {
    ST pick(List<ST> enabled, ST cur, int step);
  }

  static final class Run {
    final Strategy strategy;
    final int maxSteps;
    final List<ST> all = new ArrayList<>();
    volatile ST running;
    volatile long switches;
    int step;
    int points;
    int sameRun;
    ST driver;
    volatile boolean over;
    volatile boolean overlong;
    volatile boolean realBlocks;
    final Map<Object, Object[]> monitors = new IdentityHashMap<>();

    Run(Strategy s, int maxSteps) {
      this.strategy = s;
      this.maxSteps = maxSteps;
    }

    synchronized ST newThread(String label, Thread t) {
      ST st = new ST(this, all.size(), label);
      st.thread = t;
      all.add(st);
      return st;
    }

    synchronized ST newForeign() {
      ST st = newThread("foreign", Thread.currentThread());
      st.state = S.REAL_BLOCKED;
      return st;
    }

    /** Must be called with the monitor of this held; the caller must not be RUNNING any more (or be cur). */
    private ST choose(ST cur) {
      List<ST> en = new ArrayList<>();
      ST low = null;
      for (ST t : all) {
        if (t.state == S.READY || t == cur && t.state == S.RUNNING
            || t.state == S.BLOCKED && t.cond != null && !t.lowest && t.cond.getAsBoolean()) {
          en.add(t);
        } else if (t.state == S.BLOCKED && t.lowest) {
          low = t;
        }
      }
      if (en.isEmpty()) {
        return low;
      }
      ST c = cur != null && cur.state == S.RUNNING ? cur : null;
      if (en.size() == 1) {
        return en.get(0);
      }
      ST n = strategy.pick(en, c, step++);
      if (n != c) {
        sameRun = 0;
      } else if (++sameRun > 400) {
        // fairness: somebody may be spinning
        sameRun = 0;
        n = en.get((en.indexOf(c) + 1) % en.size());
      }
      return n;
    }

    /** Called by the driver thread: returns when no other thread can go on, false if the run was aborted. */
    boolean awaitQuiet() {
      ST me = driver;
      int calm = 0;
      while (true) {
        block(me, () -> true, true);
        me.lowest = false;
        if (overlong) {
          return false;
        }
        boolean real = false;
        boolean ready = false;
        synchronized (this) {
          for (ST t : all) {
            real |= t.state == S.REAL_BLOCKED;
            ready |= t != me && t.state == S.READY;
          }
        }
        if (!real || !ready && ++calm > 10) {
          return true;
        }
        if (ready) {
          calm = 0;
        }
        try {
          Thread.sleep(3);
        } catch (InterruptedException e) {
          // ignore
        }
      }
    }

    private void handTo(ST next) {
      switches++;
      if (next == null && overlong) {
        next = driver;
      }
      if (next == null) {
        running = null;
        return;
      }
      next.state = S.RUNNING;
      next.cond = null;
      running = next;
      next.sem.release();
    }

    void yieldNow(ST me) {
      me.awake = false;
      synchronized (this) {
        if (over) {
          kill(me);
        }
        if (me.state == S.REAL_BLOCKED) {
          me.state = S.READY;
          if (running == null) {
            handTo(choose(null));
          }
        } else {
          if (++points > maxSteps) {
            overlong = true;
          }
          ST next = overlong ? driver : choose(me);
          if (next == me || next == null || me == driver && overlong) {
            me.awake = true;
            return;
          }
          me.state = S.READY;
          handTo(next);
        }
      }
      park(me);
    }

    void block(ST me, BooleanSupplier cond, boolean lowest) {
      me.awake = false;
      synchronized (this) {
        if (over) {
          kill(me);
        }
        if (!lowest && me.state == S.RUNNING && cond.getAsBoolean()) {
          me.awake = true;
          return;
        }
        me.lowest = lowest;
        me.cond = cond;
        boolean wasRunning = me.state == S.RUNNING;
        me.state = S.BLOCKED;
        if (wasRunning || running == null) {
          handTo(choose(null));
        }
      }
      park(me);
    }

    void park(ST me) {
      me.sem.acquireUninterruptibly();
      if (me.killed) {
        throw new Kill();
      }
      me.awake = true;
    }

    void finished(ST me) {
      me.awake = false;
      synchronized (this) {
        boolean wasRunning = me.state == S.RUNNING;
        me.state = S.DONE;
        if (!over && (wasRunning || running == null)) {
          handTo(choose(null));
        }
      }
    }

    private void kill(ST me) {
      me.killed = true;
      throw new Kill();
    }

    /** Called by the watchdog. */
    void watch() {
      ST r = running;
      long sw = switches;
      if (r == null || over || !r.awake || r == driver) {
        return;
      }
      // a thread that stays blocked for a long while blocks on something the scheduler does not know
      for (int i = 0; i < 15; i++) {
        Thread.State ts = r.thread.getState();
        if (ts == Thread.State.RUNNABLE || ts == Thread.State.NEW || running != r || switches != sw
            || !r.awake) {
          return;
        }
        try {
          Thread.sleep(1);
        } catch (InterruptedException e) {
          return;
        }
      }
      synchronized (this) {
        if (running != r || switches != sw || over || !r.awake) {
          return;
        }
        Thread.State ts = r.thread.getState();
        if (ts == Thread.State.RUNNABLE) {
          return;
        }
        realBlocks = true;
        r.state = ts == Thread.State.TERMINATED ? S.DONE : S.REAL_BLOCKED;
        handTo(choose(null));
      }
    }

    /** Ends the run: every other controlled thread unwinds. */
    void end() {
      List<ST> l;
      synchronized (this) {
        over = true;
        l = new ArrayList<>(all);
      }
      for (ST t : l) {
        if (t.thread != Thread.currentThread() && t.state != S.DONE) {
          t.killed = true;
          t.sem.release();
          if (t.state == S.REAL_BLOCKED && t.thread != null) {
            t.thread.interrupt();
          }
        }
      }
    }
  }

  static volatile Run cur;
  static final ThreadLocal<ST> ME = new ThreadLocal<>();
  private static Thread watchdog;

  static synchronized void startWatchdog() {
    if (watchdog == null) {
      watchdog = new Thread(() -> {
        while (true) {
          Run r = cur;
          if (r != null) {
            r.watch();
          }
          try {
            TimeUnit.MICROSECONDS.sleep(1000);
          } catch (InterruptedException e) {
            return;
          }
        }
      }, "watchdog");
      watchdog.setDaemon(true);
      watchdog.start();
    }
  }

  private static ST me() {
    ST st = ME.get();
    if (st == null) {
      Run r = cur;
      if (r == null || r.over || Thread.currentThread() == watchdog) {
        return null;
      }
      // a thread made by the code under test in a way the harness does not know
      st = r.newForeign();
      ME.set(st);
      r.realBlocks = true;
      return st;
    }
    if (st.run != cur) {
      if (st.killed || st.run.over) {
        throw new Kill();
      }
    }
    return st;
  }

  /** A scheduling point. */
  public static void y(int site) {
    if (cur == null && ME.get() == null) {
      return;
    }
    ST me = me();
    if (me != null && !me.mute) {
      me.run.yieldNow(me);
    }
  }

  /** The calling thread is about to log what it has done. */
  static void pre() {
    ST me = ME.get();
    if (me != null && me.run.strategy instanceof McRun.Follow && !me.killed && !me.run.over) {
      Set<Integer> at = ((McRun.Follow) me.run.strategy).atPre;
      at.add(me.id);
      y(-21);
      at.remove(me.id);
    }
  }

  /** Evaluates without scheduling points, so that the result still holds when it returns. */
  static <R> R still(java.util.function.Supplier<R> s) {
    ST me = ME.get();
    if (me == null) {
      return s.get();
    }
    me.mute = true;
    try {
      return s.get();
    } finally {
      me.mute = false;
    }
  }

  static void blockUntil(BooleanSupplier cond) {
    ST me = me();
    me.run.block(me, cond, false);
  }

  /** Id of the calling controlled thread, -1 if there is none. */
  static int tid() {
    ST st = ME.get();
    return st == null ? -1 : st.id;
  }

  static int tid(Thread t) {
    ST me = ME.get();
    for (ST x : me.run.all) {
      if (x.thread == t) {
        return x.id;
      }
    }
    return -1;
  }

  /** Whether a client makes this call, not something called by the code under test. */
  static boolean client() {
    ST me = ME.get();
    return me != null && me.label.equals("client");
  }

  // ---- replacements for blocking operations of the code under test

  public static void await(CountDownLatch l) throws InterruptedException {
    if (ME.get() == null) {
      l.await();
      return;
    }
    y(-2);
    if (interrupted()) {
      throw new InterruptedException();
    }
    ST me = ME.get();
    blockUntil(() -> l.getCount() == 0 || me.interrupted);
    if (interrupted()) {
      throw new InterruptedException();
    }
  }

  /** Interrupts a thread; one that is held by the scheduler learns it when it waits interruptibly. */
  static void interrupt(Thread t) {
    for (ST x : ME.get().run.all) {
      if (x.thread == t) {
        x.interrupted = true;
      }
    }
    t.interrupt();
  }

  /** Whether this thread is interrupted, which it is no longer then. */
  static boolean interrupted() {
    ST me = ME.get();
    if (me != null) {
      me.interrupted = false;
    }
    return Thread.interrupted();
  }

  public static boolean await(CountDownLatch l, long time, TimeUnit u) throws InterruptedException {
    if (ME.get() == null) {
      return l.await(time, u);
    }
    y(-2);
    // virtual time: the wait may time out whenever the scheduler comes back to it
    y(-2);
    return l.getCount() == 0;
  }

  public static void lock(java.util.concurrent.locks.Lock l) throws InterruptedException {
    if (ME.get() == null) {
      l.lock();
      return;
    }
    y(-4);
    while (!l.tryLock()) {
      if (l instanceof java.util.concurrent.locks.ReentrantLock) {
        blockUntil(() -> !((java.util.concurrent.locks.ReentrantLock) l).isLocked());
      } else {
        sleep(1);
      }
    }
  }

  public static void monEnter(Object o) {
    if (ME.get() == null) {
      return;
    }
    ST me = me();
    Run r = me.run;
    y(-3);
    blockUntil(() -> {
      Object[] h = r.monitors.get(o);
      return h == null || h[0] == me;
    });
    synchronized (r) {
      Object[] h = r.monitors.computeIfAbsent(o, k -> new Object[]{me, 0});
      h[0] = me;
      h[1] = (Integer) h[1] + 1;
    }
  }

  public static void monExit(Object o) {
    ST me = ME.get();
    if (me == null) {
      return;
    }
    Run r = me.run;
    synchronized (r) {
      Object[] h = r.monitors.get(o);
      if (h != null && h[0] == me) {
        h[1] = (Integer) h[1] - 1;
        if ((Integer) h[1] == 0) {
          r.monitors.remove(o);
        }
      }
    }
    if (!me.killed && !r.over) {
      y(-4);
    }
  }

  public static void sleep(long ms) throws InterruptedException {
    if (ME.get() == null) {
      Thread.sleep(ms);
      return;
    }
    for (int i = 0; i < 3; i++) {
      y(-5);
    }
  }

  static volatile boolean realExecutors;

  public static ExecutorService newSingleThreadExecutor() {
    return realExecutors ? Executors.newSingleThreadExecutor()
        : new SchedExecutor(1, Executors.defaultThreadFactory());
  }

  public static ExecutorService newSingleThreadExecutor(ThreadFactory f) {
    return realExecutors ? Executors.newSingleThreadExecutor(f) : new SchedExecutor(1, f);
  }

  public static ExecutorService newFixedThreadPool(int n) {
    return realExecutors ? Executors.newFixedThreadPool(n)
        : new SchedExecutor(n, Executors.defaultThreadFactory());
  }

  public static ExecutorService newFixedThreadPool(int n, ThreadFactory f) {
    return realExecutors ? Executors.newFixedThreadPool(n, f) : new SchedExecutor(n, f);
  }

  public static ExecutorService newCachedThreadPool() {
    return realExecutors ? Executors.newCachedThreadPool()
        : new SchedExecutor(1000, Executors.defaultThreadFactory());
  }

  public static ExecutorService newCachedThreadPool(ThreadFactory f) {
    return realExecutors ? Executors.newCachedThreadPool(f) : new SchedExecutor(1000, f);
  }

  private Sched() {
  }
}
