package java.util.concurrent;

import java.io.Serializable;
import java.util.AbstractCollection;
import java.util.Collection;
import java.util.Deque;
import java.util.Iterator;
import java.util.NoSuchElementException;
import java.util.Spliterator;
import java.util.function.Consumer;
import java.util.function.Predicate;

/** Model: deque with atomic operations and weakly consistent iterator and spliterator. */
public class ConcurrentLinkedDeque<E> extends AbstractCollection<E> implements Deque<E>, Serializable {
  private Object[] items = new Object[8];
  private int size;

  public ConcurrentLinkedDeque() {
  }

  public ConcurrentLinkedDeque(Collection<? extends E> c) {
    for (E e : c) {
      addLast(e);
    }
  }

  private void room() {
    if (size == items.length) {
      Object[] b = new Object[size * 2];
      for (int i = 0; i < size; i++) {
        b[i] = items[i];
      }
      items = b;
    }
  }

  @Override
  public void addFirst(E e) {
    if (e == null) {
      throw new NullPointerException();
    }
    room();
    for (int i = size; i > 0; i--) {
      items[i] = items[i - 1];
    }
    items[0] = e;
    size++;
  }

  @Override
  public void addLast(E e) {
    if (e == null) {
      throw new NullPointerException();
    }
    room();
    items[size++] = e;
  }

  @SuppressWarnings("unchecked")
  private E at(int i) {
    E e = (E) items[i];
    for (int k = i + 1; k < size; k++) {
      items[k - 1] = items[k];
    }
    items[--size] = null;
    return e;
  }

  @Override
  public boolean offerFirst(E e) {
    addFirst(e);
    return true;
  }

  @Override
  public boolean offerLast(E e) {
    addLast(e);
    return true;
  }

  @Override
  public E pollFirst() {
    return size == 0 ? null : at(0);
  }

  @Override
  public E pollLast() {
    return size == 0 ? null : at(size - 1);
  }

  @SuppressWarnings("unchecked")
  @Override
  public E peekFirst() {
    return size == 0 ? null : (E) items[0];
  }

  @SuppressWarnings("unchecked")
  @Override
  public E peekLast() {
    return size == 0 ? null : (E) items[size - 1];
  }

  private E some(E e) {
    if (e == null) {
      throw new NoSuchElementException();
    }
    return e;
  }

  @Override
  public E removeFirst() {
    return some(pollFirst());
  }

  @Override
  public E removeLast() {
    return some(pollLast());
  }

  @Override
  public E getFirst() {
    return some(peekFirst());
  }

  @Override
  public E getLast() {
    return some(peekLast());
  }

  @Override
  public boolean add(E e) {
    return offerLast(e);
  }

  @Override
  public boolean offer(E e) {
    return offerLast(e);
  }

  @Override
  public E remove() {
    return removeFirst();
  }

  @Override
  public E poll() {
    return pollFirst();
  }

  @Override
  public E element() {
    return getFirst();
  }

  @Override
  public E peek() {
    return peekFirst();
  }

  @Override
  public void push(E e) {
    addFirst(e);
  }

  @Override
  public E pop() {
    return removeFirst();
  }

  @Override
  public int size() {
    return size;
  }

  @Override
  public boolean isEmpty() {
    return size == 0;
  }

  private int find(Object o) {
    if (o != null) {
      for (int i = 0; i < size; i++) {
        if (o.equals(items[i])) {
          return i;
        }
      }
    }
    return -1;
  }

  @Override
  public boolean contains(Object o) {
    return find(o) >= 0;
  }

  @Override
  public boolean remove(Object o) {
    return removeFirstOccurrence(o);
  }

  @Override
  public boolean removeFirstOccurrence(Object o) {
    int i = find(o);
    if (i < 0) {
      return false;
    }
    at(i);
    return true;
  }

  @Override
  public boolean removeLastOccurrence(Object o) {
    for (int i = size - 1; i >= 0; i--) {
      if (o.equals(items[i])) {
        at(i);
        return true;
      }
    }
    return false;
  }

  @SuppressWarnings("unchecked")
  @Override
  public boolean removeIf(Predicate<? super E> p) {
    boolean r = false;
    for (int i = 0; i < size;) {
      if (p.test((E) items[i])) {
        at(i);
        r = true;
      } else {
        i++;
      }
    }
    return r;
  }

  @Override
  public void clear() {
    while (size > 0) {
      items[--size] = null;
    }
  }

  @Override
  public void forEach(Consumer<? super E> a) {
    for (Iterator<E> it = iterator(); it.hasNext();) {
      a.accept(it.next());
    }
  }

  @Override
  public Iterator<E> iterator() {
    return new It<>(this, false);
  }

  @Override
  public Iterator<E> descendingIterator() {
    return new It<>(this, true);
  }

  @Override
  public Spliterator<E> spliterator() {
    return new Split<>(this);
  }

  /** Iterates over the elements present at its creation; removed ones may still be seen, as the JDK's may. */
  static final class It<E> implements Iterator<E> {
    final ConcurrentLinkedDeque<E> q;
    final Object[] snap;
    final boolean down;
    int pos;

    It(ConcurrentLinkedDeque<E> q, boolean down) {
      this.q = q;
      this.down = down;
      snap = new Object[q.size];
      for (int i = 0; i < q.size; i++) {
        snap[i] = q.items[down ? q.size - 1 - i : i];
      }
    }

    @Override
    public boolean hasNext() {
      return pos < snap.length;
    }

    @SuppressWarnings("unchecked")
    @Override
    public E next() {
      if (pos >= snap.length) {
        throw new NoSuchElementException();
      }
      return (E) snap[pos++];
    }

    @Override
    public void remove() {
      Object o = snap[pos - 1];
      for (int i = 0; i < q.size; i++) {
        if (q.items[i] == o) {
          q.at(i);
          return;
        }
      }
    }
  }

  static final class Split<E> implements Spliterator<E> {
    final ConcurrentLinkedDeque<E> q;
    Iterator<E> it;

    Split(ConcurrentLinkedDeque<E> q) {
      this.q = q;
    }

    @Override
    public boolean tryAdvance(Consumer<? super E> a) {
      if (it == null) {
        it = q.iterator();
      }
      if (!it.hasNext()) {
        return false;
      }
      a.accept(it.next());
      return true;
    }

    @Override
    public Spliterator<E> trySplit() {
      return null;
    }

    @Override
    public long estimateSize() {
      return Long.MAX_VALUE;
    }

    @Override
    public int characteristics() {
      return ORDERED | NONNULL | CONCURRENT;
    }
  }
}
