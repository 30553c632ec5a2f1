package verif.rt;

/** Plain FIFO used by the models. */
public final class VFifo {
  private Object[] items = new Object[12];
  private int head;
  private int tail;

  public void add(Object o) {
    if (tail == items.length) {
      Object[] n = new Object[items.length * 2];
      for (int i = 0; i < tail; i++) {
        n[i] = items[i];
      }
      items = n;
    }
    items[tail++] = o;
  }

  public Object poll() {
    return head == tail ? null : items[head++];
  }

  public Object peek() {
    return head == tail ? null : items[head];
  }

  public int size() {
    return tail - head;
  }
}
