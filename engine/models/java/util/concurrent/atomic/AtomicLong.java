package java.util.concurrent.atomic;

/** Model. */
public class AtomicLong extends Number {
  private long value;

  public AtomicLong() {
  }

  public AtomicLong(long v) {
    value = v;
  }

  public final long get() {
    return value;
  }

  public final void set(long v) {
    value = v;
  }

  public final void lazySet(long v) {
    value = v;
  }

  public final long getAndSet(long v) {
    long o = value;
    value = v;
    return o;
  }

  public final boolean compareAndSet(long e, long v) {
    if (value != e) {
      return false;
    }
    value = v;
    return true;
  }

  public final long getAndIncrement() {
    return value++;
  }

  public final long getAndDecrement() {
    return value--;
  }

  public final long getAndAdd(long d) {
    long o = value;
    value += d;
    return o;
  }

  public final long incrementAndGet() {
    return ++value;
  }

  public final long decrementAndGet() {
    return --value;
  }

  public final long addAndGet(long d) {
    value += d;
    return value;
  }

  public final long updateAndGet(java.util.function.LongUnaryOperator f) {
    value = f.applyAsLong(value);
    return value;
  }

  public final long getAndUpdate(java.util.function.LongUnaryOperator f) {
    long o = value;
    value = f.applyAsLong(value);
    return o;
  }

  public final long accumulateAndGet(long v, java.util.function.LongBinaryOperator f) {
    value = f.applyAsLong(value, v);
    return value;
  }

  public final long getPlain() {
    return value;
  }

  public final long getAcquire() {
    return value;
  }

  public final void setRelease(long v) {
    value = v;
  }

  @Override
  public String toString() {
    return Long.toString(value);
  }

  @Override
  public int intValue() {
    return (int) value;
  }

  @Override
  public long longValue() {
    return value;
  }

  @Override
  public float floatValue() {
    return value;
  }

  @Override
  public double doubleValue() {
    return value;
  }
}
