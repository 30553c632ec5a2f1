package verif.rt;

import java.util.concurrent.CancellationException;
import java.util.concurrent.CompletionException;
import java.util.concurrent.ExecutionException;
import java.util.concurrent.Executor;
import java.util.concurrent.Future;
import java.util.concurrent.TimeUnit;
import java.util.concurrent.TimeoutException;
import java.util.function.BiConsumer;
import java.util.function.BiFunction;
import java.util.function.Consumer;
import java.util.function.Function;
import java.util.function.Supplier;

/** Replaces java.util.concurrent.CompletableFuture in the code under test. */
public class VCompletableFuture<T> implements Future<T> {
  private final Cell done = new Cell();
  private T result;
  private Throwable failure;
  private final VFifo after = new VFifo();

  public static <U> VCompletableFuture<U> completedFuture(U v) {
    VCompletableFuture<U> f = new VCompletableFuture<>();
    f.complete(v);
    return f;
  }

  public static <U> VCompletableFuture<U> supplyAsync(Supplier<U> s, Executor e) {
    VCompletableFuture<U> f = new VCompletableFuture<>();
    e.execute(() -> {
      try {
        f.complete(s.get());
      } catch (Sched.Deadlock d) {
        throw d;
      } catch (Throwable t) {
        f.completeExceptionally(wrap(t));
      }
    });
    return f;
  }

  public static <U> VCompletableFuture<U> supplyAsync(Supplier<U> s) {
    return supplyAsync(s, VForkJoin.commonPool());
  }

  public static VCompletableFuture<Void> runAsync(Runnable r, Executor e) {
    return supplyAsync(() -> {
      r.run();
      return null;
    }, e);
  }

  public static VCompletableFuture<Void> runAsync(Runnable r) {
    return runAsync(r, VForkJoin.commonPool());
  }

  private static Throwable wrap(Throwable t) {
    return t instanceof CompletionException ? t : new CompletionException(t);
  }

  private boolean finish(T v, Throwable t) {
    Sched.point();
    if (done.v != 0) {
      return false;
    }
    result = v;
    failure = t;
    done.v = 1;
    for (Object o = after.poll(); o != null; o = after.poll()) {
      ((Runnable) o).run();
    }
    return true;
  }

  public boolean complete(T v) {
    return finish(v, null);
  }

  public boolean completeExceptionally(Throwable t) {
    return finish(null, t);
  }

  @Override
  public boolean cancel(boolean b) {
    return finish(null, new CancellationException());
  }

  @Override
  public boolean isCancelled() {
    return failure instanceof CancellationException;
  }

  @Override
  public boolean isDone() {
    Sched.point();
    return done.v != 0;
  }

  public boolean isCompletedExceptionally() {
    Sched.point();
    return failure != null;
  }

  @Override
  public T get() throws InterruptedException, ExecutionException {
    if (Sched.interrupted()) {
      throw new InterruptedException();
    }
    Sched.block(Sched.NONZERO_I, done);
    if (done.v == 0 && Sched.interrupted()) {
      throw new InterruptedException();
    }
    return report();
  }

  private T report() throws ExecutionException {
    if (failure instanceof CancellationException) {
      throw (CancellationException) failure;
    }
    if (failure != null) {
      Throwable t = failure;
      throw new ExecutionException(t instanceof CompletionException && t.getCause() != null ? t.getCause() : t);
    }
    return result;
  }

  @Override
  public T get(long t, TimeUnit u) throws InterruptedException, ExecutionException, TimeoutException {
    Sched.point();
    if (done.v == 0) {
      throw new TimeoutException();
    }
    return report();
  }

  public T join() {
    Sched.block(Sched.NONZERO, done);
    if (failure instanceof CancellationException) {
      throw (CancellationException) failure;
    }
    if (failure != null) {
      throw (CompletionException) wrap(failure);
    }
    return result;
  }

  public T getNow(T dflt) {
    Sched.point();
    return done.v == 0 ? dflt : join();
  }

  private void then(Runnable r) {
    Sched.point();
    if (done.v != 0) {
      r.run();
    } else {
      after.add(r);
    }
  }

  public <U> VCompletableFuture<U> handle(BiFunction<? super T, Throwable, ? extends U> fn) {
    VCompletableFuture<U> f = new VCompletableFuture<>();
    then(() -> {
      try {
        f.complete(fn.apply(result, failure));
      } catch (Sched.Deadlock d) {
        throw d;
      } catch (Throwable t) {
        f.completeExceptionally(wrap(t));
      }
    });
    return f;
  }

  public VCompletableFuture<T> whenComplete(BiConsumer<? super T, ? super Throwable> c) {
    VCompletableFuture<T> f = new VCompletableFuture<>();
    then(() -> {
      Throwable own = null;
      try {
        c.accept(result, failure);
      } catch (Sched.Deadlock d) {
        throw d;
      } catch (Throwable t) {
        own = t;
      }
      if (failure != null || own != null) {
        f.completeExceptionally(wrap(failure != null ? failure : own));
      } else {
        f.complete(result);
      }
    });
    return f;
  }

  public <U> VCompletableFuture<U> thenApply(Function<? super T, ? extends U> fn) {
    VCompletableFuture<U> f = new VCompletableFuture<>();
    then(() -> {
      if (failure != null) {
        f.completeExceptionally(wrap(failure));
        return;
      }
      try {
        f.complete(fn.apply(result));
      } catch (Sched.Deadlock d) {
        throw d;
      } catch (Throwable t) {
        f.completeExceptionally(wrap(t));
      }
    });
    return f;
  }

  public VCompletableFuture<Void> thenAccept(Consumer<? super T> c) {
    return thenApply(v -> {
      c.accept(v);
      return null;
    });
  }

  public VCompletableFuture<Void> thenRun(Runnable r) {
    return thenApply(v -> {
      r.run();
      return null;
    });
  }

  public VCompletableFuture<T> exceptionally(Function<Throwable, ? extends T> fn) {
    return handle((v, t) -> t == null ? v : fn.apply(t));
  }
}
