package verif.rt;

/** Object.wait and notify in the code under test. */
public final class VMon {
  private static Object[] objects = new Object[4];
  private static Cell[] cells = new Cell[4];
  private static int n;

  private VMon() {
  }

  private static void check(Object o) {
    if (!Sched.holdsLock(o)) {
      throw new IllegalMonitorStateException();
    }
  }

  public static void await(Object o) throws InterruptedException {
    await(o, 0);
  }

  public static void await(Object o, long ms) throws InterruptedException {
    check(o);
    if (Sched.interrupted()) {
      throw new InterruptedException();
    }
    if (n == cells.length) {
      objects = java.util.Arrays.copyOf(objects, n * 2);
      cells = java.util.Arrays.copyOf(cells, n * 2);
    }
    Cell c = new Cell();
    objects[n] = o;
    cells[n++] = c;
    int k = 0;
    while (Sched.holdsLock(o)) {
      Sched.unlock(o);
      k++;
    }
    if (ms > 0) {
      Sched.point();
    } else {
      Sched.block(Sched.NONZERO_I, c);
    }
    boolean told = c.v != 0;
    drop(c);
    while (k-- > 0) {
      Sched.lock(o);
    }
    if (!told && Sched.interrupted()) {
      throw new InterruptedException();
    }
  }

  private static void drop(Cell c) {
    for (int i = 0; i < n; i++) {
      if (cells[i] == c) {
        n--;
        for (int k = i; k < n; k++) {
          cells[k] = cells[k + 1];
          objects[k] = objects[k + 1];
        }
        cells[n] = null;
        objects[n] = null;
        return;
      }
    }
  }

  public static void notifyOne(Object o) {
    check(o);
    for (int i = 0; i < n; i++) {
      if (objects[i] == o && cells[i].v == 0) {
        cells[i].v = 1;
        return;
      }
    }
  }

  public static void notifyEvery(Object o) {
    check(o);
    for (int i = 0; i < n; i++) {
      if (objects[i] == o) {
        cells[i].v = 1;
      }
    }
  }

  public static void sleep(long ms) throws InterruptedException {
    Sched.point();
    if (Sched.interrupted()) {
      throw new InterruptedException();
    }
  }

  public static void sleep(long ms, int ns) throws InterruptedException {
    sleep(ms);
  }

  public static void sleep(java.util.concurrent.TimeUnit u, long t) throws InterruptedException {
    sleep(t);
  }

  public static void join(Thread t) throws InterruptedException {
    if (Sched.interrupted()) {
      throw new InterruptedException();
    }
    Sched.join(t);
  }

  public static void join(Thread t, long ms) throws InterruptedException {
    sleep(ms);
  }
}
