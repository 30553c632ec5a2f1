package verif.rt;

import java.util.List;
import java.util.concurrent.CompletionException;
import java.util.function.Consumer;
import java.util.stream.Stream;

/** Replaces Stream.forEach in the code under test: a parallel stream's elements are taken by three threads. */
public final class Par {
  private Par() {
  }

  private static final class Work<T> extends Cell implements Runnable {
    final List<T> l;
    final Consumer<? super T> c;
    final VLatch done;
    Throwable err;

    Work(List<T> l, Consumer<? super T> c) {
      this.l = l;
      this.c = c;
      done = new VLatch(l.size());
    }

    @Override
    public void run() {
      Sched.point();
      if (v < l.size()) {
        T t = l.get(v++);
        try {
          if (err == null) {
            c.accept(t);
          }
        } catch (Throwable e) {
          err = e;
        }
        done.countDown();
      }
    }
  }

  public static <T> void forEach(Stream<T> s, Consumer<? super T> c) {
    if (!s.isParallel()) {
      s.forEach(c);
      return;
    }
    Work<T> w = new Work<>(s.sequential().toList(), c);
    for (int i = 1; i < w.l.size(); i++) {
      VForkJoin.commonPool().execute(w);
    }
    w.run();
    Sched.block(Sched.ZERO_I, w.done);
    if (w.err instanceof RuntimeException) {
      throw (RuntimeException) w.err;
    }
    if (w.err instanceof Error) {
      throw (Error) w.err;
    }
    if (w.err != null) {
      throw new CompletionException(w.err);
    }
  }
}
