package java.lang;

import java.util.function.Supplier;

/** Model: one value per thread, kept with the variable. */
public class ThreadLocal<T> {
  private Thread[] ts = new Thread[4];
  private Object[] vs = new Object[4];
  private int n;

  public ThreadLocal() {
  }

  public static <S> ThreadLocal<S> withInitial(Supplier<? extends S> s) {
    return new Supplied<>(s);
  }

  static final class Supplied<T> extends ThreadLocal<T> {
    private final Supplier<? extends T> s;

    Supplied(Supplier<? extends T> s) {
      this.s = java.util.Objects.requireNonNull(s);
    }

    @Override
    protected T initialValue() {
      return s.get();
    }
  }

  protected T initialValue() {
    return null;
  }

  @SuppressWarnings("unchecked")
  public T get() {
    Thread t = Thread.currentThread();
    for (int i = 0; i < n; i++) {
      if (ts[i] == t) {
        return (T) vs[i];
      }
    }
    T v = initialValue();
    set(v);
    return v;
  }

  public void set(T v) {
    Thread t = Thread.currentThread();
    for (int i = 0; i < n; i++) {
      if (ts[i] == t) {
        vs[i] = v;
        return;
      }
    }
    if (n == ts.length) {
      ts = java.util.Arrays.copyOf(ts, n * 2);
      vs = java.util.Arrays.copyOf(vs, n * 2);
    }
    ts[n] = t;
    vs[n++] = v;
  }

  public void remove() {
    Thread t = Thread.currentThread();
    for (int i = 0; i < n; i++) {
      if (ts[i] == t) {
        n--;
        ts[i] = ts[n];
        vs[i] = vs[n];
        ts[n] = null;
        vs[n] = null;
        return;
      }
    }
  }
}
