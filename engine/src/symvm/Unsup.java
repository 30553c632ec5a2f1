package symvm;

/** Target of desugared instructions that the engine cannot execute. */
public final class Unsup {
  private Unsup() {
  }

  public static void unsupported(String what) {
    throw new Unsupported(what);
  }
}
