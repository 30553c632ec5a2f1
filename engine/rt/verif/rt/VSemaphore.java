package verif.rt;

import java.util.concurrent.TimeUnit;

/** Replaces java.util.concurrent.Semaphore in the code under test. */
public class VSemaphore extends Cell {
  public VSemaphore(int n) {
    v = n;
  }

  public VSemaphore(int n, boolean fair) {
    v = n;
  }

  public void acquire() throws InterruptedException {
    if (Sched.interrupted()) {
      throw new InterruptedException();
    }
    Sched.block(Sched.NONZERO_I, this);
    if (Sched.interrupted()) {
      throw new InterruptedException();
    }
    v--;
  }

  public void acquireUninterruptibly() {
    Sched.block(Sched.NONZERO, this);
    v--;
  }

  public boolean tryAcquire() {
    Sched.point();
    if (v <= 0) {
      return false;
    }
    v--;
    return true;
  }

  public boolean tryAcquire(long t, TimeUnit u) {
    return tryAcquire();
  }

  public void release() {
    Sched.point();
    v++;
  }

  public void release(int n) {
    Sched.point();
    v += n;
  }

  public int availablePermits() {
    Sched.point();
    return v;
  }

  public int drainPermits() {
    Sched.point();
    int n = v;
    v = 0;
    return n;
  }
}
