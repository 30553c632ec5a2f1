package java.util;

import java.io.Serializable;

/** Model. */
public class HashSet<E> extends AbstractSet<E> implements Set<E>, Cloneable, Serializable {
  final HashMap<E, Object> map = new HashMap<>();

  public HashSet() {
  }

  public HashSet(int c) {
  }

  public HashSet(int c, float f) {
  }

  public HashSet(Collection<? extends E> c) {
    addAll(c);
  }

  @Override
  public Iterator<E> iterator() {
    return map.keySet().iterator();
  }

  @Override
  public int size() {
    return map.size();
  }

  @Override
  public boolean isEmpty() {
    return map.isEmpty();
  }

  @Override
  public boolean contains(Object o) {
    return map.containsKey(o);
  }

  @Override
  public boolean add(E e) {
    return map.put(e, Boolean.TRUE) == null;
  }

  @Override
  public boolean remove(Object o) {
    return map.remove(o) != null;
  }

  @Override
  public void clear() {
    map.clear();
  }

  @Override
  public Object clone() {
    return new HashSet<>(this);
  }
}
