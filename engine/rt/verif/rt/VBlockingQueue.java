package verif.rt;

import java.util.AbstractQueue;
import java.util.Collection;
import java.util.Iterator;
import java.util.NoSuchElementException;
import java.util.concurrent.BlockingDeque;
import java.util.concurrent.TimeUnit;

/** Replaces the linked and array blocking queues of java.util.concurrent in the code under test. */
public class VBlockingQueue<E> extends AbstractQueue<E> implements BlockingDeque<E> {
  private Object[] items = new Object[8];
  final int cap;
  private final Cell size = new Cell();
  private final Cell room = new Cell();

  public VBlockingQueue() {
    this(Integer.MAX_VALUE);
  }

  public VBlockingQueue(int cap) {
    if (cap <= 0) {
      throw new IllegalArgumentException();
    }
    this.cap = cap;
    room.v = cap;
  }

  public VBlockingQueue(int cap, boolean fair) {
    this(cap);
  }

  public VBlockingQueue(Collection<? extends E> c) {
    this();
    for (E e : c) {
      add(e);
    }
  }

  private void nonNull(Object e) {
    if (e == null) {
      throw new NullPointerException();
    }
  }

  private void insert(int at, E e) {
    int n = size.v;
    if (n == items.length) {
      Object[] b = new Object[n * 2];
      for (int i = 0; i < n; i++) {
        b[i] = items[i];
      }
      items = b;
    }
    for (int i = n; i > at; i--) {
      items[i] = items[i - 1];
    }
    items[at] = e;
    size.v = n + 1;
    room.v--;
  }

  @SuppressWarnings("unchecked")
  private E extract(int i) {
    E e = (E) items[i];
    int n = size.v;
    for (int k = i + 1; k < n; k++) {
      items[k - 1] = items[k];
    }
    items[n - 1] = null;
    size.v = n - 1;
    room.v++;
    return e;
  }

  private static void wait(Cell c) throws InterruptedException {
    if (Sched.interrupted()) {
      throw new InterruptedException();
    }
    Sched.block(Sched.NONZERO_I, c);
    if (Sched.interrupted()) {
      throw new InterruptedException();
    }
  }

  @Override
  public boolean offerLast(E e) {
    nonNull(e);
    if (room.v == 0) {
      return false;
    }
    insert(size.v, e);
    return true;
  }

  @Override
  public boolean offerFirst(E e) {
    nonNull(e);
    if (room.v == 0) {
      return false;
    }
    insert(0, e);
    return true;
  }

  @Override
  public E pollFirst() {
    return size.v == 0 ? null : extract(0);
  }

  @Override
  public E pollLast() {
    return size.v == 0 ? null : extract(size.v - 1);
  }

  @SuppressWarnings("unchecked")
  @Override
  public E peekFirst() {
    return size.v == 0 ? null : (E) items[0];
  }

  @SuppressWarnings("unchecked")
  @Override
  public E peekLast() {
    return size.v == 0 ? null : (E) items[size.v - 1];
  }

  @Override
  public void putLast(E e) throws InterruptedException {
    nonNull(e);
    wait(room);
    insert(size.v, e);
  }

  @Override
  public void putFirst(E e) throws InterruptedException {
    nonNull(e);
    wait(room);
    insert(0, e);
  }

  @Override
  public E takeFirst() throws InterruptedException {
    wait(size);
    return extract(0);
  }

  @Override
  public E takeLast() throws InterruptedException {
    wait(size);
    return extract(size.v - 1);
  }

  private E some(E e) {
    if (e == null) {
      throw new NoSuchElementException();
    }
    return e;
  }

  private void full(boolean ok) {
    if (!ok) {
      throw new IllegalStateException("Queue full");
    }
  }

  @Override
  public boolean offer(E e) {
    return offerLast(e);
  }

  @Override
  public boolean offer(E e, long t, TimeUnit u) {
    Sched.point();
    return offerLast(e);
  }

  @Override
  public boolean offerFirst(E e, long t, TimeUnit u) {
    Sched.point();
    return offerFirst(e);
  }

  @Override
  public boolean offerLast(E e, long t, TimeUnit u) {
    Sched.point();
    return offerLast(e);
  }

  @Override
  public E poll() {
    return pollFirst();
  }

  @Override
  public E poll(long t, TimeUnit u) {
    Sched.point();
    return pollFirst();
  }

  @Override
  public E pollFirst(long t, TimeUnit u) {
    Sched.point();
    return pollFirst();
  }

  @Override
  public E pollLast(long t, TimeUnit u) {
    Sched.point();
    return pollLast();
  }

  @Override
  public E peek() {
    return peekFirst();
  }

  @Override
  public void put(E e) throws InterruptedException {
    putLast(e);
  }

  @Override
  public E take() throws InterruptedException {
    return takeFirst();
  }

  @Override
  public void addFirst(E e) {
    full(offerFirst(e));
  }

  @Override
  public void addLast(E e) {
    full(offerLast(e));
  }

  @Override
  public E removeFirst() {
    return some(pollFirst());
  }

  @Override
  public E removeLast() {
    return some(pollLast());
  }

  @Override
  public E getFirst() {
    return some(peekFirst());
  }

  @Override
  public E getLast() {
    return some(peekLast());
  }

  @Override
  public void push(E e) {
    addFirst(e);
  }

  @Override
  public E pop() {
    return removeFirst();
  }

  @Override
  public int size() {
    return size.v;
  }

  @Override
  public boolean isEmpty() {
    return size.v == 0;
  }

  @Override
  public int remainingCapacity() {
    return room.v;
  }

  @Override
  public boolean contains(Object o) {
    for (int i = 0; i < size.v; i++) {
      if (o != null && o.equals(items[i])) {
        return true;
      }
    }
    return false;
  }

  @Override
  public boolean remove(Object o) {
    return removeFirstOccurrence(o);
  }

  @Override
  public boolean removeFirstOccurrence(Object o) {
    for (int i = 0; i < size.v; i++) {
      if (o != null && o.equals(items[i])) {
        extract(i);
        return true;
      }
    }
    return false;
  }

  @Override
  public boolean removeLastOccurrence(Object o) {
    for (int i = size.v - 1; i >= 0; i--) {
      if (o != null && o.equals(items[i])) {
        extract(i);
        return true;
      }
    }
    return false;
  }

  @Override
  public void clear() {
    while (size.v > 0) {
      extract(size.v - 1);
    }
  }

  @Override
  public int drainTo(Collection<? super E> c) {
    return drainTo(c, Integer.MAX_VALUE);
  }

  @Override
  public int drainTo(Collection<? super E> c, int max) {
    int n = 0;
    while (n < max && size.v > 0) {
      c.add(extract(0));
      n++;
    }
    return n;
  }

  @Override
  public Iterator<E> iterator() {
    return new It<>(this, false);
  }

  @Override
  public Iterator<E> descendingIterator() {
    return new It<>(this, true);
  }

  private static final class It<E> implements Iterator<E> {
    private final VBlockingQueue<E> q;
    private final Object[] snap;
    private int pos;

    It(VBlockingQueue<E> q, boolean down) {
      this.q = q;
      int n = q.size.v;
      snap = new Object[n];
      for (int i = 0; i < n; i++) {
        snap[i] = q.items[down ? n - 1 - i : i];
      }
    }

    @Override
    public boolean hasNext() {
      return pos < snap.length;
    }

    @SuppressWarnings("unchecked")
    @Override
    public E next() {
      if (pos >= snap.length) {
        throw new NoSuchElementException();
      }
      return (E) snap[pos++];
    }

    @Override
    public void remove() {
      for (int i = 0; i < q.size.v; i++) {
        if (q.items[i] == snap[pos - 1]) {
          q.extract(i);
          return;
        }
      }
    }
  }
}
