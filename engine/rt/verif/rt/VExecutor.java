package verif.rt;

import java.util.ArrayList;
import java.util.List;
import java.util.concurrent.AbstractExecutorService;
import java.util.concurrent.Callable;
import java.util.concurrent.RejectedExecutionException;
import java.util.concurrent.RunnableFuture;
import java.util.concurrent.ThreadFactory;
import java.util.concurrent.TimeUnit;

/** Model of the thread pools of java.util.concurrent: FIFO task queue, workers started on demand through the given
 * factory, a worker that dies of an exception is replaced. */
public class VExecutor extends AbstractExecutorService {
  final int core;
  final int max;
  final int cap;
  private final ThreadFactory tf;
  private final VFifo tasks = new VFifo();
  private final Cell pending = new Cell();
  private int started;
  private int busy;
  private boolean shutdown;

  public VExecutor(int max, ThreadFactory tf) {
    this(max, max, Integer.MAX_VALUE, tf);
  }

  VExecutor(int core, int max, int cap, ThreadFactory tf) {
    this.core = core;
    this.max = max;
    this.cap = cap;
    this.tf = tf == null ? VExecutors.defaultThreadFactory() : tf;
  }

  void rejected(Runnable r) {
    throw new RejectedExecutionException();
  }

  @Override
  public void execute(Runnable r) {
    if (r == null) {
      throw new NullPointerException();
    }
    Sched.point();
    if (shutdown) {
      rejected(r);
      return;
    }
    boolean more = started < core
        || started < max && (cap < Integer.MAX_VALUE && pending.v >= cap + started - busy || started == 0);
    if (!more && cap < Integer.MAX_VALUE && pending.v >= cap + started - busy) {
      rejected(r);
      return;
    }
    tasks.add(r);
    pending.v++;
    if (more) {
      started++;
      Thread t = tf.newThread(new Worker());
      Sched.startThread(t);
    }
  }

  private final class Worker implements Runnable {
    @Override
    public void run() {
      Sched.threadBegin();
      try {
        loop();
      } catch (Sched.Deadlock d) {
        return;
      }
    }

    private void loop() {
      while (true) {
        Sched.block(Sched.NONZERO, pending);
        Runnable r = (Runnable) tasks.poll();
        pending.v--;
        if (cap < Integer.MAX_VALUE) {
          busy++;
        }
        try {
          r.run();
        } catch (Sched.Deadlock d) {
          throw d;
        } catch (Throwable t) {
          Thread th = Thread.currentThread();
          Thread.UncaughtExceptionHandler h = th.getUncaughtExceptionHandler();
          if (h != null) {
            h.uncaughtException(th, t);
          }
        }
        if (cap < Integer.MAX_VALUE) {
          busy--;
        }
      }
    }
  }

  @Override
  protected <T> RunnableFuture<T> newTaskFor(Runnable r, T v) {
    return new VFutureTask<>(r, v);
  }

  @Override
  protected <T> RunnableFuture<T> newTaskFor(Callable<T> c) {
    return new VFutureTask<>(c);
  }

  @Override
  public void shutdown() {
    Sched.point();
    shutdown = true;
  }

  @Override
  public List<Runnable> shutdownNow() {
    Sched.point();
    shutdown = true;
    List<Runnable> l = new ArrayList<>();
    while (pending.v > 0) {
      l.add((Runnable) tasks.poll());
      pending.v--;
    }
    return l;
  }

  @Override
  public boolean isShutdown() {
    return shutdown;
  }

  @Override
  public boolean isTerminated() {
    return shutdown && pending.v == 0;
  }

  @Override
  public boolean awaitTermination(long timeout, TimeUnit unit) {
    Sched.point();
    return isTerminated();
  }
}
