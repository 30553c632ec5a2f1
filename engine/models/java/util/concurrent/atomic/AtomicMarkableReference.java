package java.util.concurrent.atomic;

/** Model. */
public class AtomicMarkableReference<V> {
  private V ref;
  private boolean mark;

  public AtomicMarkableReference(V r, boolean m) {
    ref = r;
    mark = m;
  }

  public V getReference() {
    return ref;
  }

  public boolean isMarked() {
    return mark;
  }

  public V get(boolean[] h) {
    h[0] = mark;
    return ref;
  }

  public boolean weakCompareAndSet(V e, V v, boolean em, boolean m) {
    return compareAndSet(e, v, em, m);
  }

  public boolean compareAndSet(V e, V v, boolean em, boolean m) {
    if (ref != e || mark != em) {
      return false;
    }
    ref = v;
    mark = m;
    return true;
  }

  public void set(V v, boolean m) {
    ref = v;
    mark = m;
  }

  public boolean attemptMark(V e, boolean m) {
    if (ref != e) {
      return false;
    }
    mark = m;
    return true;
  }
}
