package verif.rt;

import java.util.concurrent.TimeUnit;
import java.util.concurrent.locks.Condition;
import java.util.concurrent.locks.Lock;

/** Replaces java.util.concurrent.locks.ReentrantLock in the code under test. */
public class VReentrantLock implements Lock {
  private int holds;

  public VReentrantLock() {
  }

  public VReentrantLock(boolean fair) {
  }

  @Override
  public void lock() {
    Sched.lock(this);
    holds++;
  }

  @Override
  public void lockInterruptibly() throws InterruptedException {
    if (Sched.interrupted()) {
      throw new InterruptedException();
    }
    lock();
  }

  @Override
  public boolean tryLock() {
    if (Sched.tryLock(this)) {
      holds++;
      return true;
    }
    return false;
  }

  @Override
  public boolean tryLock(long t, TimeUnit u) {
    return tryLock();
  }

  @Override
  public void unlock() {
    if (!Sched.holdsLock(this)) {
      throw new IllegalMonitorStateException();
    }
    holds--;
    Sched.unlock(this);
  }

  public boolean isLocked() {
    return holds > 0;
  }

  public boolean isFair() {
    return false;
  }

  public boolean isHeldByCurrentThread() {
    return Sched.holdsLock(this);
  }

  public int getHoldCount() {
    return Sched.holdsLock(this) ? holds : 0;
  }

  @Override
  public Condition newCondition() {
    return new Cond(this);
  }

  private static final class Cond implements Condition {
    private final VReentrantLock lock;
    private final VFifo waiters = new VFifo();

    Cond(VReentrantLock lock) {
      this.lock = lock;
    }

    private boolean wait(boolean interruptible, boolean timed) throws InterruptedException {
      if (!lock.isHeldByCurrentThread()) {
        throw new IllegalMonitorStateException();
      }
      if (interruptible && Sched.interrupted()) {
        throw new InterruptedException();
      }
      Cell c = new Cell();
      waiters.add(c);
      int n = lock.holds;
      for (int i = 0; i < n; i++) {
        lock.unlock();
      }
      if (timed) {
        Sched.point();
      } else {
        Sched.block(interruptible ? Sched.NONZERO_I : Sched.NONZERO, c);
      }
      boolean told = c.v != 0;
      c.v = 2;
      for (int i = 0; i < n; i++) {
        lock.lock();
      }
      if (interruptible && !told && Sched.interrupted()) {
        throw new InterruptedException();
      }
      return told;
    }

    @Override
    public void await() throws InterruptedException {
      wait(true, false);
    }

    @Override
    public void awaitUninterruptibly() {
      try {
        wait(false, false);
      } catch (InterruptedException e) {
        throw new IllegalStateException(e);
      }
    }

    @Override
    public long awaitNanos(long n) throws InterruptedException {
      return wait(true, true) ? 1 : 0;
    }

    @Override
    public boolean await(long t, TimeUnit u) throws InterruptedException {
      return wait(true, true);
    }

    @Override
    public boolean awaitUntil(java.util.Date d) throws InterruptedException {
      return wait(true, true);
    }

    @Override
    public void signal() {
      if (!lock.isHeldByCurrentThread()) {
        throw new IllegalMonitorStateException();
      }
      for (Object o = waiters.poll(); o != null; o = waiters.poll()) {
        if (((Cell) o).v == 0) {
          ((Cell) o).v = 1;
          return;
        }
      }
    }

    @Override
    public void signalAll() {
      if (!lock.isHeldByCurrentThread()) {
        throw new IllegalMonitorStateException();
      }
      for (Object o = waiters.poll(); o != null; o = waiters.poll()) {
        if (((Cell) o).v == 0) {
          ((Cell) o).v = 1;
        }
      }
    }
  }
}
