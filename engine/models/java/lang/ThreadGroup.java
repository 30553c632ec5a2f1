package java.lang;

/** Model: name, parent and what happens to uncaught exceptions. */
public class ThreadGroup implements Thread.UncaughtExceptionHandler {
  static final ThreadGroup MAIN = new ThreadGroup();
  private final ThreadGroup parent;
  private final String name;

  private ThreadGroup() {
    parent = new ThreadGroup(null, "system");
    name = "main";
  }

  public ThreadGroup(String name) {
    this(MAIN, name);
  }

  public ThreadGroup(ThreadGroup parent, String name) {
    this.parent = parent;
    this.name = name;
  }

  public final String getName() {
    return name;
  }

  public final ThreadGroup getParent() {
    return parent;
  }

  public final int getMaxPriority() {
    return 10;
  }

  public void uncaughtException(Thread t, Throwable e) {
    if (parent != null) {
      parent.uncaughtException(t, e);
    } else if (Thread.getDefaultUncaughtExceptionHandler() != null) {
      Thread.getDefaultUncaughtExceptionHandler().uncaughtException(t, e);
    }
  }
}
