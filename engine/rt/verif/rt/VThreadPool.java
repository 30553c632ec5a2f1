package verif.rt;

import java.util.concurrent.BlockingQueue;
import java.util.concurrent.RejectedExecutionException;
import java.util.concurrent.ThreadFactory;
import java.util.concurrent.TimeUnit;

/** Replaces java.util.concurrent.ThreadPoolExecutor in the code under test. The work queue only gives its capacity. */
public class VThreadPool extends VExecutor {
  private Rejection handler;

  /** As RejectedExecutionHandler. */
  public interface Rejection {
    void rejectedExecution(Runnable r, VThreadPool e);
  }

  /** As in ThreadPoolExecutor. */
  public static class AbortPolicy implements Rejection {
    @Override
    public void rejectedExecution(Runnable r, VThreadPool e) {
      throw new RejectedExecutionException();
    }
  }

  /** As in ThreadPoolExecutor. */
  public static class CallerRunsPolicy implements Rejection {
    @Override
    public void rejectedExecution(Runnable r, VThreadPool e) {
      if (!e.isShutdown()) {
        r.run();
      }
    }
  }

  /** As in ThreadPoolExecutor. */
  public static class DiscardPolicy implements Rejection {
    @Override
    public void rejectedExecution(Runnable r, VThreadPool e) {
    }
  }

  private static int cap(BlockingQueue<Runnable> q) {
    return q instanceof VSynchronousQueue ? 0 : q instanceof VBlockingQueue ? ((VBlockingQueue<Runnable>) q).cap
        : q.remainingCapacity();
  }

  public VThreadPool(int core, int max, long keep, TimeUnit u, BlockingQueue<Runnable> q) {
    this(core, max, keep, u, q, null, new AbortPolicy());
  }

  public VThreadPool(int core, int max, long keep, TimeUnit u, BlockingQueue<Runnable> q, ThreadFactory tf) {
    this(core, max, keep, u, q, tf, new AbortPolicy());
  }

  public VThreadPool(int core, int max, long keep, TimeUnit u, BlockingQueue<Runnable> q, Rejection h) {
    this(core, max, keep, u, q, null, h);
  }

  public VThreadPool(int core, int max, long keep, TimeUnit u, BlockingQueue<Runnable> q, ThreadFactory tf,
      Rejection h) {
    super(core, max, cap(q), tf);
    handler = h;
  }

  @Override
  void rejected(Runnable r) {
    handler.rejectedExecution(r, this);
  }

  public void setRejectedExecutionHandler(Rejection h) {
    handler = h;
  }

  public void allowCoreThreadTimeOut(boolean b) {
  }

  public int prestartAllCoreThreads() {
    return 0;
  }

  public int getCorePoolSize() {
    return core;
  }

  public int getMaximumPoolSize() {
    return max;
  }
}
