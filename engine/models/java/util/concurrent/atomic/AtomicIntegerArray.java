package java.util.concurrent.atomic;

/** Model. */
public class AtomicIntegerArray implements java.io.Serializable {
  private final int[] a;

  public AtomicIntegerArray(int n) {
    a = new int[n];
  }

  public AtomicIntegerArray(int[] b) {
    a = b.clone();
  }

  public final int length() {
    return a.length;
  }

  public final int get(int i) {
    return a[i];
  }

  public final void set(int i, int v) {
    a[i] = v;
  }

  public final int getAndSet(int i, int v) {
    int o = a[i];
    a[i] = v;
    return o;
  }

  public final boolean compareAndSet(int i, int e, int v) {
    if (a[i] != e) {
      return false;
    }
    a[i] = v;
    return true;
  }

  public final int getAndIncrement(int i) {
    return a[i]++;
  }

  public final int getAndDecrement(int i) {
    return a[i]--;
  }

  public final int getAndAdd(int i, int d) {
    int o = a[i];
    a[i] = o + d;
    return o;
  }

  public final int incrementAndGet(int i) {
    return ++a[i];
  }

  public final int decrementAndGet(int i) {
    return --a[i];
  }

  public final int addAndGet(int i, int d) {
    a[i] += d;
    return a[i];
  }
}
