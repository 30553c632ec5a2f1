package verif.rt;

/** Replaces org.apache.logging.log4j.LogManager in the code under test. */
public final class VLogManager {
  private VLogManager() {
  }

  public static VLogger getLogger(Class<?> c) {
    return new VLogSink(c.getName());
  }

  public static VLogger getLogger(String n) {
    return new VLogSink(n);
  }

  public static VLogger getLogger() {
    return new VLogSink("");
  }
}
