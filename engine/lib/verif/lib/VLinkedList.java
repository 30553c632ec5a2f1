package verif.lib;

import java.util.AbstractSequentialList;
import java.util.Collection;
import java.util.ConcurrentModificationException;
import java.util.Deque;
import java.util.Iterator;
import java.util.ListIterator;
import java.util.NoSuchElementException;
import java.util.Objects;

/** java.util.LinkedList for the code under test: not thread-safe, instrumented like it. */
public class VLinkedList<E> extends AbstractSequentialList<E> implements Deque<E>, Cloneable {
  private static final class Node<E> {
    E item;
    Node<E> next, prev;

    Node(Node<E> prev, E item, Node<E> next) {
      this.item = item;
      this.next = next;
      this.prev = prev;
    }
  }

  private int count;
  private Node<E> first, last;

  public VLinkedList() {
  }

  public VLinkedList(Collection<? extends E> c) {
    for (E e : c) {
      addLast(e);
    }
  }

  private E unlink(Node<E> x) {
    E e = x.item;
    Node<E> n = x.next;
    Node<E> p = x.prev;
    if (p == null) {
      first = n;
    } else {
      p.next = n;
    }
    if (n == null) {
      last = p;
    } else {
      n.prev = p;
    }
    count--;
    modCount++;
    return e;
  }

  private void before(E e, Node<E> s) {
    if (s == null) {
      addLast(e);
      return;
    }
    Node<E> p = s.prev;
    Node<E> n = new Node<>(p, e, s);
    s.prev = n;
    if (p == null) {
      first = n;
    } else {
      p.next = n;
    }
    count++;
    modCount++;
  }

  @Override
  public void addFirst(E e) {
    Node<E> f = first;
    Node<E> n = new Node<>(null, e, f);
    first = n;
    if (f == null) {
      last = n;
    } else {
      f.prev = n;
    }
    count++;
    modCount++;
  }

  @Override
  public void addLast(E e) {
    Node<E> l = last;
    Node<E> n = new Node<>(l, e, null);
    last = n;
    if (l == null) {
      first = n;
    } else {
      l.next = n;
    }
    count++;
    modCount++;
  }

  @Override
  public boolean offerFirst(E e) {
    addFirst(e);
    return true;
  }

  @Override
  public boolean offerLast(E e) {
    addLast(e);
    return true;
  }

  @Override
  public E pollFirst() {
    Node<E> f = first;
    return f == null ? null : unlink(f);
  }

  @Override
  public E pollLast() {
    Node<E> l = last;
    return l == null ? null : unlink(l);
  }

  @Override
  public E removeFirst() {
    Node<E> f = first;
    if (f == null) {
      throw new NoSuchElementException();
    }
    return unlink(f);
  }

  @Override
  public E removeLast() {
    Node<E> l = last;
    if (l == null) {
      throw new NoSuchElementException();
    }
    return unlink(l);
  }

  @Override
  public E getFirst() {
    Node<E> f = first;
    if (f == null) {
      throw new NoSuchElementException();
    }
    return f.item;
  }

  @Override
  public E getLast() {
    Node<E> l = last;
    if (l == null) {
      throw new NoSuchElementException();
    }
    return l.item;
  }

  @Override
  public E peekFirst() {
    Node<E> f = first;
    return f == null ? null : f.item;
  }

  @Override
  public E peekLast() {
    Node<E> l = last;
    return l == null ? null : l.item;
  }

  @Override
  public boolean add(E e) {
    addLast(e);
    return true;
  }

  @Override
  public boolean offer(E e) {
    addLast(e);
    return true;
  }

  @Override
  public E remove() {
    return removeFirst();
  }

  @Override
  public E poll() {
    return pollFirst();
  }

  @Override
  public E element() {
    return getFirst();
  }

  @Override
  public E peek() {
    return peekFirst();
  }

  @Override
  public void push(E e) {
    addFirst(e);
  }

  @Override
  public E pop() {
    return removeFirst();
  }

  @Override
  public int size() {
    return count;
  }

  @Override
  public boolean remove(Object o) {
    return removeFirstOccurrence(o);
  }

  @Override
  public boolean removeFirstOccurrence(Object o) {
    for (Node<E> x = first; x != null; x = x.next) {
      if (Objects.equals(o, x.item)) {
        unlink(x);
        return true;
      }
    }
    return false;
  }

  @Override
  public boolean removeLastOccurrence(Object o) {
    for (Node<E> x = last; x != null; x = x.prev) {
      if (Objects.equals(o, x.item)) {
        unlink(x);
        return true;
      }
    }
    return false;
  }

  @Override
  public void clear() {
    first = null;
    last = null;
    count = 0;
    modCount++;
  }

  @Override
  public ListIterator<E> listIterator(int index) {
    if (index < 0 || index > count) {
      throw new IndexOutOfBoundsException("Index: " + index);
    }
    return new It(index);
  }

  @Override
  public Iterator<E> descendingIterator() {
    ListIterator<E> it = listIterator(count);
    return new Iterator<E>() {
      @Override
      public boolean hasNext() {
        return it.hasPrevious();
      }

      @Override
      public E next() {
        return it.previous();
      }

      @Override
      public void remove() {
        it.remove();
      }
    };
  }

  private final class It implements ListIterator<E> {
    private Node<E> returned, next;
    private int index, expected = modCount;

    It(int index) {
      Node<E> x = first;
      for (int i = 0; i < index; i++) {
        x = x.next;
      }
      next = x;
      this.index = index;
    }

    private void same() {
      if (modCount != expected) {
        throw new ConcurrentModificationException();
      }
    }

    @Override
    public boolean hasNext() {
      return index < count;
    }

    @Override
    public E next() {
      same();
      if (!hasNext()) {
        throw new NoSuchElementException();
      }
      returned = next;
      next = next.next;
      index++;
      return returned.item;
    }

    @Override
    public boolean hasPrevious() {
      return index > 0;
    }

    @Override
    public E previous() {
      same();
      if (!hasPrevious()) {
        throw new NoSuchElementException();
      }
      next = next == null ? last : next.prev;
      returned = next;
      index--;
      return returned.item;
    }

    @Override
    public int nextIndex() {
      return index;
    }

    @Override
    public int previousIndex() {
      return index - 1;
    }

    @Override
    public void remove() {
      same();
      if (returned == null) {
        throw new IllegalStateException();
      }
      Node<E> n = returned.next;
      unlink(returned);
      if (next == returned) {
        next = n;
      } else {
        index--;
      }
      returned = null;
      expected++;
    }

    @Override
    public void set(E e) {
      if (returned == null) {
        throw new IllegalStateException();
      }
      same();
      returned.item = e;
    }

    @Override
    public void add(E e) {
      same();
      returned = null;
      before(e, next);
      index++;
      expected++;
    }
  }
}
