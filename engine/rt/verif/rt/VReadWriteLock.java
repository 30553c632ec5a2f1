package verif.rt;

import java.util.concurrent.TimeUnit;
import java.util.concurrent.locks.Condition;
import java.util.concurrent.locks.Lock;
import java.util.concurrent.locks.ReadWriteLock;

/** Replaces java.util.concurrent.locks.ReentrantReadWriteLock in the code under test. */
public class VReadWriteLock implements ReadWriteLock {
  /** write holds. */
  private final Cell writing = new Cell();
  /** holds of other kinds than reading by the writer. */
  private final Cell busy = new Cell();
  private int writer = -1;
  private final ReadLock read = new ReadLock(this);
  private final WriteLock write = new WriteLock(this);

  public VReadWriteLock() {
  }

  public VReadWriteLock(boolean fair) {
  }

  @Override
  public ReadLock readLock() {
    return read;
  }

  @Override
  public WriteLock writeLock() {
    return write;
  }

  public boolean isWriteLocked() {
    return writing.v > 0;
  }

  public boolean isWriteLockedByCurrentThread() {
    return writing.v > 0 && writer == Sched.current();
  }

  public int getReadLockCount() {
    return busy.v - writing.v;
  }

  /** As in ReentrantReadWriteLock. */
  public static class ReadLock implements Lock {
    private final VReadWriteLock l;

    ReadLock(VReadWriteLock l) {
      this.l = l;
    }

    @Override
    public void lock() {
      if (!l.isWriteLockedByCurrentThread()) {
        Sched.block(Sched.ZERO, l.writing);
      }
      l.busy.v++;
    }

    @Override
    public void lockInterruptibly() {
      lock();
    }

    @Override
    public boolean tryLock() {
      Sched.point();
      if (l.writing.v > 0 && !l.isWriteLockedByCurrentThread()) {
        return false;
      }
      l.busy.v++;
      return true;
    }

    @Override
    public boolean tryLock(long t, TimeUnit u) {
      return tryLock();
    }

    @Override
    public void unlock() {
      if (l.busy.v - l.writing.v <= 0) {
        throw new IllegalMonitorStateException();
      }
      l.busy.v--;
    }

    @Override
    public Condition newCondition() {
      throw new UnsupportedOperationException();
    }
  }

  /** As in ReentrantReadWriteLock. */
  public static class WriteLock implements Lock {
    private final VReadWriteLock l;

    WriteLock(VReadWriteLock l) {
      this.l = l;
    }

    @Override
    public void lock() {
      if (!l.isWriteLockedByCurrentThread()) {
        Sched.block(Sched.ZERO, l.busy);
        l.writer = Sched.current();
      }
      l.busy.v++;
      l.writing.v++;
    }

    @Override
    public void lockInterruptibly() {
      lock();
    }

    @Override
    public boolean tryLock() {
      Sched.point();
      if (!l.isWriteLockedByCurrentThread()) {
        if (l.busy.v > 0) {
          return false;
        }
        l.writer = Sched.current();
      }
      l.busy.v++;
      l.writing.v++;
      return true;
    }

    @Override
    public boolean tryLock(long t, TimeUnit u) {
      return tryLock();
    }

    @Override
    public void unlock() {
      if (!l.isWriteLockedByCurrentThread()) {
        throw new IllegalMonitorStateException();
      }
      l.busy.v--;
      l.writing.v--;
    }

    public boolean isHeldByCurrentThread() {
      return l.isWriteLockedByCurrentThread();
    }

    @Override
    public Condition newCondition() {
      throw new UnsupportedOperationException();
    }
  }
}
