package java.util.concurrent.atomic;

/** Model. */
public class AtomicReferenceArray<E> implements java.io.Serializable {
  private final Object[] a;

  public AtomicReferenceArray(int n) {
    a = new Object[n];
  }

  public AtomicReferenceArray(E[] e) {
    a = new Object[e.length];
    for (int i = 0; i < e.length; i++) {
      a[i] = e[i];
    }
  }

  public final int length() {
    return a.length;
  }

  @SuppressWarnings("unchecked")
  public final E get(int i) {
    return (E) a[i];
  }

  public final void set(int i, E v) {
    a[i] = v;
  }

  public final E getAndSet(int i, E v) {
    E o = get(i);
    a[i] = v;
    return o;
  }

  public final boolean compareAndSet(int i, E e, E v) {
    if (a[i] != e) {
      return false;
    }
    a[i] = v;
    return true;
  }
}
