package verif.rt;

/** Replaces java.util.concurrent.locks.LockSupport in the code under test. */
public final class VLockSupport {
  private static Thread[] threads = new Thread[4];
  private static Cell[] permits = new Cell[4];
  private static int n;

  private VLockSupport() {
  }

  private static Cell permit(Thread t) {
    for (int i = 0; i < n; i++) {
      if (threads[i] == t) {
        return permits[i];
      }
    }
    if (n == threads.length) {
      threads = java.util.Arrays.copyOf(threads, n * 2);
      permits = java.util.Arrays.copyOf(permits, n * 2);
    }
    threads[n] = t;
    permits[n] = new Cell();
    return permits[n++];
  }

  public static void park() {
    Cell c = permit(Thread.currentThread());
    Sched.block(Sched.NONZERO_I, c);
    c.v = 0;
  }

  public static void park(Object blocker) {
    park();
  }

  public static void parkNanos(long ns) {
    Sched.point();
    permit(Thread.currentThread()).v = 0;
  }

  public static void parkNanos(Object blocker, long ns) {
    parkNanos(ns);
  }

  public static void unpark(Thread t) {
    Sched.point();
    if (t != null) {
      permit(t).v = 1;
    }
  }
}
