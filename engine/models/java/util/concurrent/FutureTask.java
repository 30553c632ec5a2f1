package java.util.concurrent;

/** Model: a task whose result is read after it has run. */
public class FutureTask<V> implements RunnableFuture<V> {
  private Callable<V> callable;
  private V result;
  private Throwable failure;
  private boolean done;
  private boolean cancelled;

  public FutureTask(Callable<V> c) {
    if (c == null) {
      throw new NullPointerException();
    }
    callable = c;
  }

  public FutureTask(Runnable r, V v) {
    callable = Executors.callable(r, v);
  }

  @Override
  public boolean isCancelled() {
    return cancelled;
  }

  @Override
  public boolean isDone() {
    return done;
  }

  @Override
  public boolean cancel(boolean b) {
    if (done) {
      return false;
    }
    done = true;
    cancelled = true;
    done();
    return true;
  }

  protected void done() {
  }

  @Override
  public V get() throws InterruptedException, ExecutionException {
    if (!done) {
      verif.models.Fmt.unsupported("Future.get of an unfinished task");
    }
    if (cancelled) {
      throw new CancellationException();
    }
    if (failure != null) {
      throw new ExecutionException(failure);
    }
    return result;
  }

  @Override
  public V get(long t, TimeUnit u) throws InterruptedException, ExecutionException, TimeoutException {
    if (!done) {
      throw new TimeoutException();
    }
    return get();
  }

  @Override
  public void run() {
    if (done) {
      return;
    }
    try {
      result = callable.call();
    } catch (Throwable t) {
      failure = t;
    }
    done = true;
    callable = null;
    done();
  }
}
