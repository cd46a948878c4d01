package vh;

import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.Deque;
import java.util.List;
import java.util.concurrent.AbstractExecutorService;
import java.util.concurrent.RejectedExecutionException;
import java.util.concurrent.ThreadFactory;
import java.util.concurrent.TimeUnit;

/**
 * Stand-in for a fixed thread pool whose workers are controlled by {@link Sched}. It behaves like a
 * ThreadPoolExecutor with an unbounded queue: at most n workers, tasks taken in order, a worker whose
 * task throws dies and is replaced.
 */
public final class SchedExecutor extends AbstractExecutorService {

  private final int n;
  private final ThreadFactory factory;
  private Sched.Run run;
  private final Deque<Runnable> tasks = new ArrayDeque<>();
  private int workers;
  private int idle;
  private boolean shutdown;

  public SchedExecutor(int n, ThreadFactory factory) {
    this.n = n;
    this.factory = factory;
  }

  @Override
  public void execute(Runnable r) {
    if (r == null) {
      throw new NullPointerException();
    }
    Sched.y(-10);
    Sched.Run add = null;
    synchronized (this) {
      Sched.Run c = Sched.cur;
      if (run != c) {
        run = c;
        tasks.clear();
        workers = 0;
        idle = 0;
      }
      if (shutdown) {
        throw new RejectedExecutionException("shut down");
      }
      tasks.add(r);
      if (workers < n && (n < 1000 || tasks.size() > idle)) {
        workers++;
        add = c;
      }
    }
    if (add != null) {
      addWorker(add);
    }
    Sched.y(-11);
  }

  private void addWorker(Sched.Run c) {
    Sched.ST[] sh = new Sched.ST[1];
    Thread t = factory.newThread(() -> loop(c, sh[0]));
    Sched.ST st = c.newThread("worker", t);
    sh[0] = st;
    t.start();
  }

  private void loop(Sched.Run c, Sched.ST st) {
    Sched.ME.set(st);
    boolean died = false;
    Throwable by = null;
    try {
      c.park(st);
      while (true) {
        synchronized (this) {
          idle++;
        }
        Sched.blockUntil(() -> {
          synchronized (this) {
            return run == c && (!tasks.isEmpty() || shutdown);
          }
        });
        Runnable r;
        synchronized (this) {
          idle--;
          r = tasks.poll();
          if (r == null && shutdown) {
            return;
          }
        }
        if (r != null) {
          try {
            r.run();
          } catch (Sched.Kill k) {
            throw k;
          } catch (Throwable t) {
            died = true;
            by = t;
            return;
          }
        }
      }
    } catch (Sched.Kill k) {
      // run over
    } finally {
      synchronized (this) {
        if (!died || run != c || shutdown) {
          workers--;
          died = false;
        }
      }
      if (died) {
        addWorker(c);
        // what the end of the thread would do
        Thread.UncaughtExceptionHandler h = Thread.currentThread().getUncaughtExceptionHandler();
        if (!(h instanceof ThreadGroup)) {
          h.uncaughtException(Thread.currentThread(), by);
        }
      }
      c.finished(st);
    }
  }

  @Override
  public synchronized void shutdown() {
    shutdown = true;
  }

  @Override
  public synchronized List<Runnable> shutdownNow() {
    shutdown = true;
    List<Runnable> l = new ArrayList<>(tasks);
    tasks.clear();
    return l;
  }

  @Override
  public synchronized boolean isShutdown() {
    return shutdown;
  }

  @Override
  public synchronized boolean isTerminated() {
    return shutdown && workers == 0;
  }

  @Override
  public boolean awaitTermination(long timeout, TimeUnit unit) {
    return isTerminated();
  }
}
