package java.lang;

/** Model: attributes only; scheduling is done by verif.rt.Sched. */
public class Thread implements Runnable {
  public static final int MIN_PRIORITY = 1;
  public static final int NORM_PRIORITY = 5;
  public static final int MAX_PRIORITY = 10;

  private static int num;
  private static UncaughtExceptionHandler dflt;
  private String name;
  private boolean daemon;
  private int priority = 5;
  private Runnable target;
  private UncaughtExceptionHandler ueh;
  private ThreadGroup group;
  private boolean interrupted;
  private long id;

  @FunctionalInterface
  public interface UncaughtExceptionHandler {
    void uncaughtException(Thread t, Throwable e);
  }

  public enum State {
    NEW, RUNNABLE, BLOCKED, WAITING, TIMED_WAITING, TERMINATED
  }

  public Thread() {
    this(null, null, null);
  }

  public Thread(Runnable r) {
    this(null, r, null);
  }

  public Thread(String n) {
    this(null, null, java.util.Objects.requireNonNull(n));
  }

  public Thread(Runnable r, String n) {
    this(null, r, java.util.Objects.requireNonNull(n));
  }

  public Thread(ThreadGroup g, Runnable r) {
    this(g, r, null);
  }

  public Thread(ThreadGroup g, Runnable r, String n, long stack) {
    this(g, r, n);
  }

  public Thread(ThreadGroup g, Runnable r, String n) {
    target = r;
    group = g;
    Thread creator = currentThread();
    daemon = creator != null && creator.daemon;
    id = 10 + num;
    name = n == null ? "Thread-" + num : n;
    num++;
  }

  public static native Thread currentThread();

  public static native boolean holdsLock(Object o);

  public void run() {
    if (target != null) {
      target.run();
    }
  }

  public final String getName() {
    return name;
  }

  public final void setName(String n) {
    if (n == null) {
      throw new NullPointerException("name cannot be null");
    }
    name = n;
  }

  public final boolean isDaemon() {
    return daemon;
  }

  public final void setDaemon(boolean b) {
    daemon = b;
  }

  public final int getPriority() {
    return priority;
  }

  public final void setPriority(int p) {
    priority = p;
  }

  public UncaughtExceptionHandler getUncaughtExceptionHandler() {
    return ueh != null ? ueh : getThreadGroup();
  }

  public void setUncaughtExceptionHandler(UncaughtExceptionHandler h) {
    ueh = h;
  }

  public static void setDefaultUncaughtExceptionHandler(UncaughtExceptionHandler h) {
    dflt = h;
  }

  public static UncaughtExceptionHandler getDefaultUncaughtExceptionHandler() {
    return dflt;
  }

  public void interrupt() {
    interrupted = true;
  }

  public boolean isInterrupted() {
    return interrupted;
  }

  static void interrupt0(Thread t) {
    t.interrupted = true;
  }

  static boolean isInterrupted0(Thread t) {
    return t.interrupted;
  }

  public static boolean interrupted() {
    Thread t = currentThread();
    boolean r = t.interrupted;
    t.interrupted = false;
    return r;
  }

  public long getId() {
    return id;
  }

  public final ThreadGroup getThreadGroup() {
    return group == null ? ThreadGroup.MAIN : group;
  }

  public ClassLoader getContextClassLoader() {
    return null;
  }

  public StackTraceElement[] getStackTrace() {
    return new StackTraceElement[0];
  }

  public static void yield() {
  }

  public static void onSpinWait() {
  }

  @Override
  public String toString() {
    return "Thread[" + name + "]";
  }
}
