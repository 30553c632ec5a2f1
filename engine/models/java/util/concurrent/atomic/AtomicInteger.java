package java.util.concurrent.atomic;

/** Model. */
public class AtomicInteger extends Number {
  private int value;

  public AtomicInteger() {
  }

  public AtomicInteger(int v) {
    value = v;
  }

  public final int get() {
    return value;
  }

  public final void set(int v) {
    value = v;
  }

  public final void lazySet(int v) {
    value = v;
  }

  public final int getAndSet(int v) {
    int o = value;
    value = v;
    return o;
  }

  public final boolean compareAndSet(int e, int v) {
    if (value != e) {
      return false;
    }
    value = v;
    return true;
  }

  public final int getAndIncrement() {
    return value++;
  }

  public final int getAndDecrement() {
    return value--;
  }

  public final int getAndAdd(int d) {
    int o = value;
    value += d;
    return o;
  }

  public final int incrementAndGet() {
    return ++value;
  }

  public final int decrementAndGet() {
    return --value;
  }

  public final int addAndGet(int d) {
    value += d;
    return value;
  }

  public final int updateAndGet(java.util.function.IntUnaryOperator f) {
    value = f.applyAsInt(value);
    return value;
  }

  public final int getAndUpdate(java.util.function.IntUnaryOperator f) {
    int o = value;
    value = f.applyAsInt(value);
    return o;
  }

  public final int accumulateAndGet(int v, java.util.function.IntBinaryOperator f) {
    value = f.applyAsInt(value, v);
    return value;
  }

  public final int getPlain() {
    return value;
  }

  public final int getAcquire() {
    return value;
  }

  public final void setRelease(int v) {
    value = v;
  }

  @Override
  public String toString() {
    return Integer.toString(value);
  }

  @Override
  public int intValue() {
    return (int) value;
  }

  @Override
  public long longValue() {
    return value;
  }

  @Override
  public float floatValue() {
    return value;
  }

  @Override
  public double doubleValue() {
    return value;
  }
}
