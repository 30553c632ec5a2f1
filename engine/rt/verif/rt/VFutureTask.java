package verif.rt;

import java.util.concurrent.Callable;
import java.util.concurrent.CancellationException;
import java.util.concurrent.ExecutionException;
import java.util.concurrent.RunnableFuture;
import java.util.concurrent.TimeUnit;
import java.util.concurrent.TimeoutException;

/** Replaces java.util.concurrent.FutureTask in the code under test. */
public class VFutureTask<V> implements RunnableFuture<V> {
  private final Callable<V> callable;
  private final Runnable runnable;
  private final Cell done = new Cell();
  private V result;
  private Throwable failure;
  private boolean cancelled;

  public VFutureTask(Callable<V> c) {
    if (c == null) {
      throw new NullPointerException();
    }
    callable = c;
    runnable = null;
  }

  public VFutureTask(Runnable r, V v) {
    if (r == null) {
      throw new NullPointerException();
    }
    callable = null;
    runnable = r;
    result = v;
  }

  @Override
  public boolean isCancelled() {
    return cancelled;
  }

  @Override
  public boolean isDone() {
    return done.v != 0;
  }

  @Override
  public boolean cancel(boolean b) {
    if (done.v != 0) {
      return false;
    }
    cancelled = true;
    done.v = 1;
    done();
    return true;
  }

  protected void done() {
  }

  @Override
  public V get() throws InterruptedException, ExecutionException {
    Sched.block(Sched.NONZERO_I, done);
    if (done.v == 0 && Sched.interrupted()) {
      throw new InterruptedException();
    }
    return report();
  }

  private V report() throws ExecutionException {
    if (cancelled) {
      throw new CancellationException();
    }
    if (failure != null) {
      throw new ExecutionException(failure);
    }
    return result;
  }

  @Override
  public V get(long t, TimeUnit u) throws InterruptedException, ExecutionException, TimeoutException {
    Sched.point();
    if (done.v == 0) {
      throw new TimeoutException();
    }
    return report();
  }

  @Override
  public void run() {
    if (done.v != 0) {
      return;
    }
    try {
      if (callable != null) {
        V r = callable.call();
        if (!cancelled) {
          result = r;
        }
      } else {
        runnable.run();
      }
    } catch (Sched.Deadlock d) {
      throw d;
    } catch (Throwable t) {
      failure = t;
    }
    if (!cancelled) {
      done.v = 1;
      done();
    }
  }
}
