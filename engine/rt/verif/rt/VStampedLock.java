package verif.rt;

/** Replaces java.util.concurrent.locks.StampedLock in the code under test. */
public class VStampedLock {
  private final Cell writing = new Cell();
  private final Cell busy = new Cell();
  private long version = 256;

  public long writeLock() {
    Sched.block(Sched.ZERO, busy);
    busy.v = 1;
    writing.v = 1;
    return ++version;
  }

  public long tryWriteLock() {
    Sched.point();
    return busy.v > 0 ? 0 : writeLock();
  }

  public long readLock() {
    Sched.block(Sched.ZERO, writing);
    busy.v++;
    return version;
  }

  public void unlockWrite(long s) {
    if (writing.v == 0 || s != version) {
      throw new IllegalMonitorStateException();
    }
    version++;
    busy.v = 0;
    writing.v = 0;
  }

  public void unlockRead(long s) {
    if (writing.v != 0 || busy.v == 0) {
      throw new IllegalMonitorStateException();
    }
    busy.v--;
  }

  public void unlock(long s) {
    if (writing.v != 0) {
      unlockWrite(s);
    } else {
      unlockRead(s);
    }
  }

  public long tryOptimisticRead() {
    Sched.point();
    return writing.v == 0 ? version : 0;
  }

  public boolean validate(long s) {
    Sched.point();
    return s != 0 && s == version;
  }
}
