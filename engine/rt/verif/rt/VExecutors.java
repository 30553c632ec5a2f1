package verif.rt;

import java.util.concurrent.Callable;
import java.util.concurrent.ExecutorService;
import java.util.concurrent.ScheduledExecutorService;
import java.util.concurrent.ThreadFactory;

/** Replaces java.util.concurrent.Executors in the code under test. */
public final class VExecutors {
  private VExecutors() {
  }

  public static ThreadFactory defaultThreadFactory() {
    return new Factory();
  }

  private static final class Factory implements ThreadFactory {
    @Override
    public Thread newThread(Runnable r) {
      Thread t = new Thread(r);
      t.setDaemon(false);
      return t;
    }
  }

  public static ExecutorService newSingleThreadExecutor(ThreadFactory tf) {
    return new VExecutor(1, tf);
  }

  public static ExecutorService newSingleThreadExecutor() {
    return new VExecutor(1, null);
  }

  public static ExecutorService newFixedThreadPool(int n, ThreadFactory tf) {
    return new VExecutor(n, tf);
  }

  public static ExecutorService newFixedThreadPool(int n) {
    return new VExecutor(n, null);
  }

  public static ExecutorService newCachedThreadPool(ThreadFactory tf) {
    return new VExecutor(2, tf);
  }

  public static ExecutorService newCachedThreadPool() {
    return new VExecutor(2, null);
  }

  public static ExecutorService newWorkStealingPool() {
    return new VExecutor(2, null);
  }

  public static ExecutorService newWorkStealingPool(int n) {
    return new VExecutor(n < 2 ? n : 2, null);
  }

  public static ScheduledExecutorService newSingleThreadScheduledExecutor() {
    return new VScheduled(1);
  }

  public static ScheduledExecutorService newSingleThreadScheduledExecutor(ThreadFactory tf) {
    return new VScheduled(1, tf);
  }

  public static ScheduledExecutorService newScheduledThreadPool(int n) {
    return new VScheduled(n);
  }

  public static ScheduledExecutorService newScheduledThreadPool(int n, ThreadFactory tf) {
    return new VScheduled(n, tf);
  }

  public static ExecutorService unconfigurableExecutorService(ExecutorService e) {
    return e;
  }

  public static Callable<Object> callable(Runnable r) {
    return callable(r, null);
  }

  public static <T> Callable<T> callable(Runnable r, T v) {
    return () -> {
      r.run();
      return v;
    };
  }
}
