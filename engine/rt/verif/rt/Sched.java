package verif.rt;

import java.util.ArrayList;
import java.util.IdentityHashMap;
import java.util.List;
import java.util.Map;
import java.util.concurrent.Semaphore;

/**
 * Cooperative scheduler. Exactly one thread runs at a time; at every scheduling point the next thread is the one
 * given by the schedule variable s&lt;step&gt;. In the engine these methods are intrinsics and the schedule is
 * symbolic; this native implementation replays one schedule on the real JVM.
 */
public final class Sched {
  public static final int NONE = 0, ZERO = 1, NONZERO = 2, LOCK = 3, QUIESCENT = 4, JOIN = 5, ZERO_I = 6,
      NONZERO_I = 7;

  static final class T {
    int tid;
    boolean finished;
    int block;
    Object ref;
    final Semaphore sem = new Semaphore(0);
    Thread thread;
    Object acc; // the field access it is about to make
    String accLoc;
    boolean accWrite, accPlain;
    Thread raw; // the thread object of the code under test, if it is not the one that runs
    boolean interrupted;
  }

  private static final List<T> threads = new ArrayList<>();
  private static final ThreadLocal<T> me = new ThreadLocal<>();
  private static final Map<Thread, T> pending = new IdentityHashMap<>();
  private static final Map<Object, int[]> locks = new IdentityHashMap<>();
  static int step;
  static volatile boolean deadlocked;
  static final List<String> log = new ArrayList<>();

  private Sched() {
  }

  static void main0() {
    T t = new T();
    t.tid = 0;
    t.thread = Thread.currentThread();
    threads.add(t);
    me.set(t);
  }

  private static int unfinished() {
    int n = 0;
    for (T t : threads) {
      if (!t.finished) {
        n++;
      }
    }
    return n;
  }

  private static boolean enabled(T t) {
    switch (t.block) {
      case ZERO:
        return ((Cell) t.ref).v == 0;
      case NONZERO:
        return ((Cell) t.ref).v != 0;
      case ZERO_I:
        return ((Cell) t.ref).v == 0 || t.interrupted;
      case NONZERO_I:
        return ((Cell) t.ref).v != 0 || t.interrupted;
      case LOCK: {
        int[] l = locks.get(t.ref);
        return l == null || l[1] == 0 || l[0] == t.tid;
      }
      case QUIESCENT:
        for (T u : threads) {
          if (u != t && !u.finished && u.block != QUIESCENT && enabled(u)) {
            return false;
          }
        }
        return true;
      case JOIN:
        return threads.get((Integer) t.ref).finished;
      default:
        return true;
    }
  }

  private static T choose(T self) {
    int k = step++;
    Long v = Sym.values.get("s" + k);
    List<T> en = new ArrayList<>();
    for (T t : threads) {
      if (!t.finished && enabled(t)) {
        en.add(t);
      }
    }
    if (en.isEmpty()) {
      return null;
    }
    if (v != null) {
      for (T t : en) {
        if (t.tid == v) {
          return t;
        }
      }
    }
    return en.contains(self) ? self : en.get(0);
  }

  private static void decide(T self) {
    races();
    T next = choose(self);
    if (next == null) {
      deadlocked = true;
      Sym.failed.add("deadlock");
      next = threads.get(0);
      if (next == self) {
        throw new Deadlock();
      }
    }
    if (next != self) {
      log.add("step " + (step - 1) + ": thread " + self.tid + " -> " + next.tid);
      next.sem.release();
      if (!self.finished) {
        self.sem.acquireUninterruptibly();
        if (deadlocked) {
          throw new Deadlock();
        }
      }
    }
    if (!self.finished) {
      if (self.block == LOCK) {
        int[] l = locks.computeIfAbsent(self.ref, z -> new int[2]);
        l[0] = self.tid;
        l[1]++;
      }
      self.block = NONE;
      self.ref = null;
    }
  }

  /** Scheduling point before a shared operation. */
  public static void point() {
    T t = me.get();
    if (t == null || unfinished() <= 1) {
      return;
    }
    t.block = NONE;
    decide(t);
  }

  static final java.util.BitSet active = new java.util.BitSet();

  /** Access to a shared location (object, field name or "" for the library object itself): a scheduling point if the
   * site is active, that is, if two threads access some location of the site in conflict. */
  public static void access(Object o, int site, int write, String loc) {
    if (active.get(site)) {
      T t = me.get();
      if (t != null && ((write & 4) != 0
          || (write & 2) == 0 && loc.startsWith("com/") && !loc.endsWith("#v") && !loc.endsWith("#w"))) {
        t.acc = o;
        t.accLoc = (write & 4) != 0 ? "atomic" : loc;
        t.accWrite = (write & 1) != 0;
        t.accPlain = (write & 8) != 0;
      }
      point();
      if (t != null) {
        t.acc = null;
        t.accLoc = null;
      }
    }
  }

  private static void races() {
    if (!Sym.values.containsKey("races")) {
      return;
    }
    for (T t : threads) {
      for (T u : threads) {
        if (t.tid < u.tid && t.accLoc != null && t.accLoc.equals(u.accLoc) && t.acc == u.acc
            && (t.accWrite || u.accWrite) && (!t.accLoc.equals("atomic") || t.accPlain || u.accPlain)) {
          Sym.failed.add(t.accLoc.equals("atomic") ? "no atomic is accessed as if it were a plain field"
              : "no two threads access " + t.accLoc.substring(t.accLoc.lastIndexOf('/') + 1).replace("#s", "")
              + " at the same time");
        }
      }
    }
  }

  /** Blocks until the condition holds. */
  public static void block(int kind, Object ref) {
    T t = me.get();
    t.block = kind;
    t.ref = ref;
    if (unfinished() <= 1) {
      if (!enabled(t)) {
        deadlocked = true;
        Sym.failed.add("deadlock");
        throw new Deadlock();
      }
      if (kind == LOCK) {
        int[] l = locks.computeIfAbsent(ref, z -> new int[2]);
        l[0] = t.tid;
        l[1]++;
      }
      t.block = NONE;
      return;
    }
    decide(t);
  }

  /** Monitor entry; a scheduling point if the site is active. */
  public static void lock(Object o, int site) {
    if (o == null) {
      throw new NullPointerException();
    }
    if (active.get(site)) {
      block(LOCK, o);
    } else if (!tryAcquire(o)) {
      throw new IllegalStateException("contended lock at an inactive site");
    }
  }

  public static void lock(Object o) {
    if (o == null) {
      throw new NullPointerException();
    }
    block(LOCK, o);
  }

  public static boolean tryLock(Object o) {
    point();
    return tryAcquire(o);
  }

  private static boolean tryAcquire(Object o) {
    int[] l = locks.computeIfAbsent(o, z -> new int[2]);
    int tid = me.get().tid;
    if (l[1] > 0 && l[0] != tid) {
      return false;
    }
    l[0] = tid;
    l[1]++;
    return true;
  }

  public static void unlock(Object o) {
    int[] l = locks.get(o);
    if (l == null || l[1] == 0 || l[0] != me.get().tid) {
      throw new IllegalMonitorStateException();
    }
    l[1]--;
  }

  public static boolean holdsLock(Object o) {
    int[] l = locks.get(o);
    return l != null && l[1] > 0 && l[0] == me.get().tid;
  }

  /** Starts a thread whose run method eventually calls threadBegin and threadEnd (see Wrap). */
  public static int startThread(Thread th) {
    T t = new T();
    t.tid = threads.size();
    t.thread = th;
    threads.add(t);
    pending.put(th, t);
    th.start();
    return t.tid;
  }

  /** Starts a thread whose run method is plain code. */
  public static void startRaw(Thread th) {
    Thread t = new Thread(new Wrap(th), th.getName());
    t.setDaemon(th.isDaemon());
    int tid = startThread(t);
    threads.get(tid).raw = th;
  }

  private static T find(Thread th) {
    for (T t : threads) {
      if (t.thread == th || t.raw == th) {
        return t;
      }
    }
    return null;
  }

  /** Thread.join: returns when the thread has ended, or at once if it was never started. */
  public static void join(Thread th) {
    T t = find(th);
    if (t != null) {
      block(JOIN, t.tid);
    }
  }

  public static boolean isAlive(Thread th) {
    T t = find(th);
    return t != null && !t.finished;
  }

  /** Interrupts a thread: it leaves an interruptible wait. */
  public static void interrupt(Thread th) {
    T t = find(th);
    if (t == null) {
      th.interrupt();
    } else {
      t.interrupted = true;
    }
  }

  public static boolean isInterrupted(Thread th) {
    T t = find(th);
    return t == null ? th.isInterrupted() : t.interrupted;
  }

  /** Thread.interrupted. */
  public static boolean interrupted() {
    T t = me.get();
    if (t == null) {
      return Thread.interrupted();
    }
    boolean r = t.interrupted;
    t.interrupted = false;
    return r;
  }

  /** First thing a scheduled thread does. */
  public static void threadBegin() {
    T t = pending.get(Thread.currentThread());
    me.set(t);
    t.sem.acquireUninterruptibly();
    if (deadlocked) {
      throw new Deadlock();
    }
  }

  /** Last thing a scheduled thread does. */
  public static void threadEnd() {
    T t = me.get();
    t.finished = true;
    decide(t);
  }

  /** Starts a client thread of a harness. */
  public static int spawn(Runnable r) {
    Thread th = new Thread(new Wrap(r));
    th.setDaemon(false);
    return startThread(th);
  }

  public static final class Wrap implements Runnable {
    private final Runnable r;

    public Wrap(Runnable r) {
      this.r = r;
    }

    @Override
    public void run() {
      threadBegin();
      try {
        r.run();
      } catch (Deadlock d) {
        return;
      } catch (Throwable t) {
        Sym.failed.add("uncaught:" + t.getClass().getName());
        Sym.trace.add("uncaught " + t);
      }
      threadEnd();
    }
  }

  /** Blocks the caller until no other thread can make a step. */
  public static void awaitQuiescence() {
    block(QUIESCENT, null);
  }

  public static boolean finished(int tid) {
    return threads.get(tid).finished;
  }

  public static int current() {
    T t = me.get();
    return t == null ? -1 : t.tid;
  }

  public static final class Deadlock extends Error {
  }
}
