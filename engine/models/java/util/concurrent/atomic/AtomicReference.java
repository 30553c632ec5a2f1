package java.util.concurrent.atomic;

/** Model. */
public class AtomicReference<V> implements java.io.Serializable {
  private V value;

  public AtomicReference() {
  }

  public AtomicReference(V v) {
    value = v;
  }

  public final V get() {
    return value;
  }

  public final void set(V v) {
    value = v;
  }

  public final void lazySet(V v) {
    value = v;
  }

  public final V getAndSet(V v) {
    V o = value;
    value = v;
    return o;
  }

  public final boolean compareAndSet(V e, V v) {
    if (value != e) {
      return false;
    }
    value = v;
    return true;
  }

  public final V compareAndExchange(V e, V v) {
    V o = value;
    if (o == e) {
      value = v;
    }
    return o;
  }

  public final V updateAndGet(java.util.function.UnaryOperator<V> f) {
    value = f.apply(value);
    return value;
  }

  public final V getAndUpdate(java.util.function.UnaryOperator<V> f) {
    V o = value;
    value = f.apply(o);
    return o;
  }

  public final V accumulateAndGet(V x, java.util.function.BinaryOperator<V> f) {
    value = f.apply(value, x);
    return value;
  }

  public final V getAndAccumulate(V x, java.util.function.BinaryOperator<V> f) {
    V o = value;
    value = f.apply(o, x);
    return o;
  }

  public final V getPlain() {
    return value;
  }

  public final V getAcquire() {
    return value;
  }

  public final void setPlain(V v) {
    value = v;
  }

  public final void setRelease(V v) {
    value = v;
  }

  @Override
  public String toString() {
    return String.valueOf(value);
  }
}
