package verif.rt;

import java.util.concurrent.TimeUnit;

/** Replaces java.util.concurrent.CountDownLatch in the code under test. */
public class VLatch extends Cell {
  public VLatch(int n) {
    if (n < 0) {
      throw new IllegalArgumentException("count < 0");
    }
    v = n;
  }

  public void countDown() {
    Sched.point();
    if (v > 0) {
      v--;
    }
  }

  public long getCount() {
    Sched.point();
    return v;
  }

  public void await() throws InterruptedException {
    if (Sched.interrupted()) {
      throw new InterruptedException();
    }
    Sched.block(Sched.ZERO_I, this);
    if (Sched.interrupted()) {
      throw new InterruptedException();
    }
  }

  public boolean await(long timeout, TimeUnit unit) throws InterruptedException {
    Sched.point();
    if (Sched.interrupted()) {
      throw new InterruptedException();
    }
    return v == 0;
  }
}
