package verif.h;

import java.util.Collections;
import java.util.List;
import java.util.concurrent.AbstractExecutorService;
import java.util.concurrent.Callable;
import java.util.concurrent.Future;
import java.util.concurrent.TimeUnit;

/** Executor whose tasks run when the harness says so, one after the other, on the harness thread. */
final class Steps extends AbstractExecutorService {
  final Runnable[] tasks = new Runnable[32];
  int head, tail;

  @Override
  public void execute(Runnable r) {
    tasks[tail++] = r;
  }

  @Override
  public Future<?> submit(Runnable r) {
    execute(r);
    return null;
  }

  @Override
  public <T> Future<T> submit(Callable<T> c) {
    execute(() -> {
      try {
        c.call();
      } catch (Exception e) {
        // a FutureTask keeps it
      }
    });
    return null;
  }

  /** Runs everything submitted, including what is submitted meanwhile; at most max tasks. */
  void run(int max) {
    for (int i = 0; i < max; i++) {
      if (head < tail) {
        tasks[head++].run();
      }
    }
  }

  boolean idle() {
    return head == tail;
  }

  @Override
  public void shutdown() {
  }

  @Override
  public List<Runnable> shutdownNow() {
    return Collections.emptyList();
  }

  /** What the executor says about itself; it runs its tasks all the same. */
  boolean shut;

  @Override
  public boolean isShutdown() {
    return shut;
  }

  @Override
  public boolean isTerminated() {
    return false;
  }

  @Override
  public boolean awaitTermination(long timeout, TimeUnit unit) {
    return true;
  }
}
