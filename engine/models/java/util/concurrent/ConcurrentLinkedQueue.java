package java.util.concurrent;

import java.io.Serializable;
import java.util.AbstractQueue;
import java.util.Collection;
import java.util.Iterator;
import java.util.NoSuchElementException;
import java.util.Queue;
import java.util.Spliterator;
import java.util.function.Consumer;
import java.util.function.Predicate;

/** Model: FIFO with atomic operations and weakly consistent iterator and spliterator. */
public class ConcurrentLinkedQueue<E> extends AbstractQueue<E> implements Queue<E>, Serializable {
  Object[] items = new Object[8];
  int head;
  int tail;

  public ConcurrentLinkedQueue() {
  }

  public ConcurrentLinkedQueue(Collection<? extends E> c) {
    for (E e : c) {
      offer(e);
    }
  }

  @Override
  public boolean add(E e) {
    return offer(e);
  }

  @Override
  public boolean offer(E e) {
    if (e == null) {
      throw new NullPointerException();
    }
    if (tail == items.length) {
      Object[] b = new Object[tail * 2];
      for (int i = 0; i < tail; i++) {
        b[i] = items[i];
      }
      items = b;
    }
    items[tail++] = e;
    return true;
  }

  private void skip() {
    while (head < tail && items[head] == null) {
      head++;
    }
  }

  @SuppressWarnings("unchecked")
  @Override
  public E poll() {
    skip();
    if (head == tail) {
      return null;
    }
    E e = (E) items[head];
    items[head++] = null;
    return e;
  }

  @SuppressWarnings("unchecked")
  @Override
  public E peek() {
    skip();
    return head == tail ? null : (E) items[head];
  }

  @Override
  public boolean isEmpty() {
    skip();
    return head == tail;
  }

  @Override
  public int size() {
    int n = 0;
    for (int i = head; i < tail; i++) {
      if (items[i] != null) {
        n++;
      }
    }
    return n;
  }

  @Override
  public boolean contains(Object o) {
    if (o == null) {
      return false;
    }
    for (int i = head; i < tail; i++) {
      if (items[i] != null && o.equals(items[i])) {
        return true;
      }
    }
    return false;
  }

  @Override
  public boolean remove(Object o) {
    if (o == null) {
      return false;
    }
    for (int i = head; i < tail; i++) {
      if (items[i] != null && o.equals(items[i])) {
        items[i] = null;
        return true;
      }
    }
    return false;
  }

  @SuppressWarnings("unchecked")
  @Override
  public boolean removeIf(Predicate<? super E> p) {
    boolean r = false;
    for (int i = head; i < tail; i++) {
      Object o = items[i];
      if (o != null && p.test((E) o)) {
        items[i] = null;
        r = true;
      }
    }
    return r;
  }

  @Override
  public void clear() {
    while (head < tail) {
      items[head++] = null;
    }
  }

  @SuppressWarnings("unchecked")
  @Override
  public void forEach(Consumer<? super E> a) {
    for (int i = head; i < tail; i++) {
      Object o = items[i];
      if (o != null) {
        a.accept((E) o);
      }
    }
  }

  @Override
  public Iterator<E> iterator() {
    return new It<>(this);
  }

  @Override
  public Spliterator<E> spliterator() {
    return new Split<>(this);
  }

  static final class It<E> implements Iterator<E> {
    final ConcurrentLinkedQueue<E> q;
    int pos;
    E next;
    int last = -1;

    It(ConcurrentLinkedQueue<E> q) {
      this.q = q;
      this.pos = q.head;
      advance();
    }

    @SuppressWarnings("unchecked")
    private void advance() {
      next = null;
      while (next == null && pos < q.tail) {
        next = (E) q.items[pos++];
      }
    }

    @Override
    public boolean hasNext() {
      return next != null;
    }

    @Override
    public E next() {
      if (next == null) {
        throw new NoSuchElementException();
      }
      E e = next;
      last = pos - 1;
      advance();
      return e;
    }

    @Override
    public void remove() {
      q.items[last] = null;
    }
  }

  static final class Split<E> implements Spliterator<E> {
    final ConcurrentLinkedQueue<E> q;
    int pos = -1;

    Split(ConcurrentLinkedQueue<E> q) {
      this.q = q;
    }

    @SuppressWarnings("unchecked")
    @Override
    public boolean tryAdvance(Consumer<? super E> a) {
      if (pos < 0) {
        pos = q.head;
      }
      while (pos < q.tail) {
        E e = (E) q.items[pos++];
        if (e != null) {
          a.accept(e);
          return true;
        }
      }
      return false;
    }

    @Override
    public Spliterator<E> trySplit() {
      return null;
    }

    @Override
    public long estimateSize() {
      return Long.MAX_VALUE;
    }

    @Override
    public int characteristics() {
      return ORDERED | NONNULL | CONCURRENT;
    }
  }
}
