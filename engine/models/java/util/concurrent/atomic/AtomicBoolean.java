package java.util.concurrent.atomic;

/** Model. */
public class AtomicBoolean implements java.io.Serializable {
  private boolean value;

  public AtomicBoolean() {
  }

  public AtomicBoolean(boolean v) {
    value = v;
  }

  public final boolean get() {
    return value;
  }

  public final void set(boolean v) {
    value = v;
  }

  public final void lazySet(boolean v) {
    value = v;
  }

  public final boolean getAndSet(boolean v) {
    boolean o = value;
    value = v;
    return o;
  }

  public final boolean compareAndSet(boolean e, boolean v) {
    if (value != e) {
      return false;
    }
    value = v;
    return true;
  }

  public final boolean compareAndExchange(boolean e, boolean v) {
    boolean o = value;
    if (o == e) {
      value = v;
    }
    return o;
  }

  public final boolean getPlain() {
    return value;
  }

  public final boolean getOpaque() {
    return value;
  }

  public final boolean getAcquire() {
    return value;
  }

  public final void setPlain(boolean v) {
    value = v;
  }

  public final void setOpaque(boolean v) {
    value = v;
  }

  public final void setRelease(boolean v) {
    value = v;
  }

  public final boolean weakCompareAndSet(boolean e, boolean v) {
    return compareAndSet(e, v);
  }

  public final boolean weakCompareAndSetAcquire(boolean e, boolean v) {
    return compareAndSet(e, v);
  }

  public final boolean weakCompareAndSetRelease(boolean e, boolean v) {
    return compareAndSet(e, v);
  }

  public final boolean compareAndExchangeAcquire(boolean e, boolean v) {
    return compareAndExchange(e, v);
  }

  public final boolean compareAndExchangeRelease(boolean e, boolean v) {
    return compareAndExchange(e, v);
  }

  public boolean weakCompareAndSetPlain(boolean e, boolean v) {
    return compareAndSet(e, v);
  }

  public boolean weakCompareAndSetVolatile(boolean e, boolean v) {
    return compareAndSet(e, v);
  }

  @Override
  public String toString() {
    return value ? "true" : "false";
  }
}
