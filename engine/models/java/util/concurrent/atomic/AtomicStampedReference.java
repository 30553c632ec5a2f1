package java.util.concurrent.atomic;

/** Model. */
public class AtomicStampedReference<V> {
  private V ref;
  private int mark;

  public AtomicStampedReference(V r, int m) {
    ref = r;
    mark = m;
  }

  public V getReference() {
    return ref;
  }

  public int getStamp() {
    return mark;
  }

  public V get(int[] h) {
    h[0] = mark;
    return ref;
  }

  public boolean weakCompareAndSet(V e, V v, int em, int m) {
    return compareAndSet(e, v, em, m);
  }

  public boolean compareAndSet(V e, V v, int em, int m) {
    if (ref != e || mark != em) {
      return false;
    }
    ref = v;
    mark = m;
    return true;
  }

  public void set(V v, int m) {
    ref = v;
    mark = m;
  }

  public boolean attemptStamp(V e, int m) {
    if (ref != e) {
      return false;
    }
    mark = m;
    return true;
  }
}
