package symvm;

/** The engine cannot decide (unsupported feature, unknown answer, bound exceeded): never a success. */
public final class Unsupported extends RuntimeException {
  public Unsupported(String m) {
    super(m);
  }

  public Unsupported(String m, Throwable t) {
    super(m, t);
  }
}
