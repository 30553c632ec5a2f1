package verif.lib;

import java.util.AbstractCollection;
import java.util.Collection;
import java.util.ConcurrentModificationException;
import java.util.Deque;
import java.util.Iterator;
import java.util.NoSuchElementException;
import java.util.Objects;
import java.util.function.Consumer;
import java.util.function.Predicate;

/** java.util.ArrayDeque for the code under test: not thread-safe, instrumented like it. */
public class VArrayDeque<E> extends AbstractCollection<E> implements Deque<E>, Cloneable {
  private Object[] elements;
  private int head, tail;

  public VArrayDeque() {
    this(16);
  }

  public VArrayDeque(int n) {
    elements = new Object[n < 1 ? 1 : n + 1];
  }

  public VArrayDeque(Collection<? extends E> c) {
    this(c.size());
    for (E e : c) {
      addLast(e);
    }
  }

  private static int inc(int i, int n) {
    return i + 1 == n ? 0 : i + 1;
  }

  private static int dec(int i, int n) {
    return i == 0 ? n - 1 : i - 1;
  }

  private void grow() {
    Object[] es = elements;
    Object[] n = new Object[es.length * 2 + 2];
    int k = 0;
    int t = tail;
    int i = head;
    do {
      n[k++] = es[i];
      i = inc(i, es.length);
    } while (i != t);
    elements = n;
    head = 0;
    tail = k;
  }

  @Override
  public void addFirst(E e) {
    Objects.requireNonNull(e);
    Object[] es = elements;
    int h = dec(head, es.length);
    es[h] = e;
    head = h;
    if (h == tail) {
      grow();
    }
  }

  @Override
  public void addLast(E e) {
    Objects.requireNonNull(e);
    Object[] es = elements;
    int t = tail;
    es[t] = e;
    t = inc(t, es.length);
    tail = t;
    if (head == t) {
      grow();
    }
  }

  @Override
  public boolean offerFirst(E e) {
    addFirst(e);
    return true;
  }

  @Override
  public boolean offerLast(E e) {
    addLast(e);
    return true;
  }

  @Override
  @SuppressWarnings("unchecked")
  public E pollFirst() {
    Object[] es = elements;
    int h = head;
    E e = (E) es[h];
    if (e != null) {
      es[h] = null;
      head = inc(h, es.length);
    }
    return e;
  }

  @Override
  @SuppressWarnings("unchecked")
  public E pollLast() {
    Object[] es = elements;
    int t = dec(tail, es.length);
    E e = (E) es[t];
    if (e != null) {
      es[t] = null;
      tail = t;
    }
    return e;
  }

  private static <E> E present(E e) {
    if (e == null) {
      throw new NoSuchElementException();
    }
    return e;
  }

  @Override
  public E removeFirst() {
    return present(pollFirst());
  }

  @Override
  public E removeLast() {
    return present(pollLast());
  }

  @Override
  public E getFirst() {
    return present(peekFirst());
  }

  @Override
  public E getLast() {
    return present(peekLast());
  }

  @Override
  @SuppressWarnings("unchecked")
  public E peekFirst() {
    return (E) elements[head];
  }

  @Override
  @SuppressWarnings("unchecked")
  public E peekLast() {
    Object[] es = elements;
    return (E) es[dec(tail, es.length)];
  }

  @Override
  public boolean add(E e) {
    addLast(e);
    return true;
  }

  @Override
  public boolean offer(E e) {
    addLast(e);
    return true;
  }

  @Override
  public E remove() {
    return removeFirst();
  }

  @Override
  public E poll() {
    return pollFirst();
  }

  @Override
  public E element() {
    return getFirst();
  }

  @Override
  public E peek() {
    return peekFirst();
  }

  @Override
  public void push(E e) {
    addFirst(e);
  }

  @Override
  public E pop() {
    return removeFirst();
  }

  @Override
  public int size() {
    int n = tail - head;
    return n < 0 ? n + elements.length : n;
  }

  @Override
  public boolean isEmpty() {
    return head == tail;
  }

  @Override
  public void clear() {
    while (pollFirst() != null) {
      continue;
    }
  }

  @Override
  public boolean contains(Object o) {
    for (E e : this) {
      if (e.equals(o)) {
        return true;
      }
    }
    return false;
  }

  private boolean drop(Iterator<E> it, Predicate<? super E> p, boolean all) {
    boolean r = false;
    while (it.hasNext()) {
      if (p.test(it.next())) {
        it.remove();
        r = true;
        if (!all) {
          return true;
        }
      }
    }
    return r;
  }

  @Override
  public boolean remove(Object o) {
    return removeFirstOccurrence(o);
  }

  @Override
  public boolean removeFirstOccurrence(Object o) {
    return drop(iterator(), e -> e.equals(o), false);
  }

  @Override
  public boolean removeLastOccurrence(Object o) {
    return drop(descendingIterator(), e -> e.equals(o), false);
  }

  @Override
  public boolean removeIf(Predicate<? super E> p) {
    return drop(iterator(), p, true);
  }

  @Override
  public void forEach(Consumer<? super E> c) {
    for (E e : this) {
      c.accept(e);
    }
  }

  /** Removes the element at i, moving the later ones forward. */
  private void delete(int i) {
    Object[] es = elements;
    int t = dec(tail, es.length);
    while (i != t) {
      int j = inc(i, es.length);
      es[i] = es[j];
      i = j;
    }
    es[t] = null;
    tail = t;
  }

  @Override
  public Iterator<E> iterator() {
    return new It(true);
  }

  @Override
  public Iterator<E> descendingIterator() {
    return new It(false);
  }

  private final class It implements Iterator<E> {
    private final boolean up;
    private int cursor, left, last = -1;

    It(boolean up) {
      this.up = up;
      left = size();
      cursor = up ? head : dec(tail, elements.length);
    }

    @Override
    public boolean hasNext() {
      return left > 0;
    }

    @Override
    @SuppressWarnings("unchecked")
    public E next() {
      if (left <= 0) {
        throw new NoSuchElementException();
      }
      Object[] es = elements;
      E e = cursor < es.length ? (E) es[cursor] : null;
      if (e == null) {
        throw new ConcurrentModificationException();
      }
      last = cursor;
      cursor = up ? inc(cursor, es.length) : dec(cursor, es.length);
      left--;
      return e;
    }

    @Override
    public void remove() {
      if (last < 0) {
        throw new IllegalStateException();
      }
      delete(last);
      if (up) {
        cursor = last;
      }
      last = -1;
    }
  }
}
