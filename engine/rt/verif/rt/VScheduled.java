package verif.rt;

import java.util.concurrent.Callable;
import java.util.concurrent.Delayed;
import java.util.concurrent.ScheduledExecutorService;
import java.util.concurrent.ScheduledFuture;
import java.util.concurrent.ThreadFactory;
import java.util.concurrent.TimeUnit;

/** Scheduled executors in the code under test: a delay is any time, tasks keep their order. */
public class VScheduled extends VExecutor implements ScheduledExecutorService {
  public VScheduled(int n) {
    super(n, null);
  }

  public VScheduled(int n, ThreadFactory tf) {
    super(n, tf);
  }

  private static final class F<V> extends VFutureTask<V> implements ScheduledFuture<V> {
    F(Runnable r) {
      super(r, null);
    }

    F(Callable<V> c) {
      super(c);
    }

    @Override
    public long getDelay(TimeUnit u) {
      return 0;
    }

    @Override
    public int compareTo(Delayed d) {
      return 0;
    }
  }

  @Override
  public ScheduledFuture<?> schedule(Runnable r, long t, TimeUnit u) {
    F<Object> f = new F<>(r);
    execute(f);
    return f;
  }

  @Override
  public <V> ScheduledFuture<V> schedule(Callable<V> c, long t, TimeUnit u) {
    F<V> f = new F<>(c);
    execute(f);
    return f;
  }

  @Override
  public ScheduledFuture<?> scheduleAtFixedRate(Runnable r, long i, long p, TimeUnit u) {
    throw new UnsupportedOperationException();
  }

  @Override
  public ScheduledFuture<?> scheduleWithFixedDelay(Runnable r, long i, long p, TimeUnit u) {
    throw new UnsupportedOperationException();
  }
}
