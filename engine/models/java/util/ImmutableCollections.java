package java.util;

import java.util.function.BiFunction;
import java.util.function.Function;
import java.util.function.Predicate;
import java.util.function.UnaryOperator;

/** Model of the immutable collections behind List.of, Set.of and Map.of (null-hostile, unmodifiable). */
class ImmutableCollections {
  static final boolean REVERSE = false;
  static final Object EMPTY = new Object();
  static final L<?> EMPTY_LIST = new L<>(new Object[0]);
  static final S<?> EMPTY_SET = new S<>(new HashMap<>());
  static final M<?, ?> EMPTY_MAP = new M<>(new HashMap<>());

  static UnsupportedOperationException uoe() {
    return new UnsupportedOperationException();
  }

  static <E> List<E> listCopy(Collection<? extends E> c) {
    return listFromTrustedArray(c.toArray());
  }

  static <E> List<E> listFromArray(E[] in) {
    return listFromTrustedArray(in.clone());
  }

  @SuppressWarnings("unchecked")
  static <E> List<E> listFromTrustedArray(Object... in) {
    for (Object o : in) {
      Objects.requireNonNull(o);
    }
    return (List<E>) new L<>(in);
  }

  @SuppressWarnings("unchecked")
  static <E> List<E> listFromTrustedArrayNullsAllowed(Object... in) {
    return (List<E>) new L<>(in);
  }

  static class L<E> extends AbstractList<E> implements RandomAccess {
    final Object[] a;

    L(Object[] a) {
      this.a = a;
    }

    @SuppressWarnings("unchecked")
    @Override
    public E get(int i) {
      return (E) a[i];
    }

    @Override
    public int size() {
      return a.length;
    }

    @Override
    public boolean contains(Object o) {
      return indexOf(o) >= 0;
    }

    @Override
    public int indexOf(Object o) {
      Objects.requireNonNull(o);
      for (int i = 0; i < a.length; i++) {
        if (o.equals(a[i])) {
          return i;
        }
      }
      return -1;
    }

    @Override
    public boolean add(E e) {
      throw uoe();
    }

    @Override
    public boolean remove(Object o) {
      throw uoe();
    }

    @Override
    public void clear() {
      throw uoe();
    }

    @Override
    public boolean addAll(Collection<? extends E> c) {
      throw uoe();
    }

    @Override
    public boolean removeAll(Collection<?> c) {
      throw uoe();
    }

    @Override
    public boolean removeIf(Predicate<? super E> p) {
      throw uoe();
    }

    @Override
    public void replaceAll(UnaryOperator<E> o) {
      throw uoe();
    }

    @Override
    public void sort(Comparator<? super E> c) {
      throw uoe();
    }

    @Override
    public Object[] toArray() {
      Object[] r = new Object[a.length];
      for (int i = 0; i < r.length; i++) {
        r[i] = a[i];
      }
      return r;
    }
  }

  static final class List12<E> extends L<E> {
    List12(E e0) {
      super(new Object[] {Objects.requireNonNull(e0)});
    }

    List12(E e0, E e1) {
      super(new Object[] {Objects.requireNonNull(e0), Objects.requireNonNull(e1)});
    }
  }

  static final class ListN<E> extends L<E> {
    static final ListN<?> EMPTY_LIST = new ListN<>(new Object[0], false);

    ListN(Object[] in, boolean allowNulls) {
      super(in);
    }
  }

  static class S<E> extends AbstractSet<E> {
    final HashMap<E, Object> m;

    S(HashMap<E, Object> m) {
      this.m = m;
    }

    static <E> HashMap<E, Object> of(Object[] in) {
      HashMap<E, Object> m = new HashMap<>();
      for (Object o : in) {
        @SuppressWarnings("unchecked")
        E e = (E) Objects.requireNonNull(o);
        if (m.put(e, Boolean.TRUE) != null) {
          throw new IllegalArgumentException("duplicate element: " + e);
        }
      }
      return m;
    }

    @Override
    public int size() {
      return m.size();
    }

    @Override
    public boolean contains(Object o) {
      return m.containsKey(Objects.requireNonNull(o));
    }

    @Override
    public Iterator<E> iterator() {
      return Collections.unmodifiableSet(m.keySet()).iterator();
    }

    @Override
    public boolean add(E e) {
      throw uoe();
    }

    @Override
    public boolean remove(Object o) {
      throw uoe();
    }

    @Override
    public void clear() {
      throw uoe();
    }
  }

  static final class Set12<E> extends S<E> {
    Set12(E e0) {
      super(of(new Object[] {e0}));
    }

    Set12(E e0, E e1) {
      super(of(new Object[] {e0, e1}));
    }
  }

  static final class SetN<E> extends S<E> {
    @SafeVarargs
    SetN(E... in) {
      super(of(in));
    }
  }

  static class M<K, V> extends AbstractMap<K, V> {
    final HashMap<K, V> m;

    M(HashMap<K, V> m) {
      this.m = m;
    }

    @SuppressWarnings("unchecked")
    static <K, V> HashMap<K, V> of(Object[] in) {
      HashMap<K, V> m = new HashMap<>();
      for (int i = 0; i < in.length; i += 2) {
        if (m.put((K) Objects.requireNonNull(in[i]), (V) Objects.requireNonNull(in[i + 1])) != null) {
          throw new IllegalArgumentException("duplicate key: " + in[i]);
        }
      }
      return m;
    }

    @Override
    public V get(Object k) {
      return m.get(Objects.requireNonNull(k));
    }

    @Override
    public boolean containsKey(Object k) {
      return m.containsKey(Objects.requireNonNull(k));
    }

    @Override
    public int size() {
      return m.size();
    }

    @Override
    public Set<Map.Entry<K, V>> entrySet() {
      return Collections.unmodifiableMap(m).entrySet();
    }

    @Override
    public V put(K k, V v) {
      throw uoe();
    }

    @Override
    public V remove(Object k) {
      throw uoe();
    }

    @Override
    public void clear() {
      throw uoe();
    }

    @Override
    public V putIfAbsent(K k, V v) {
      throw uoe();
    }

    @Override
    public V computeIfAbsent(K k, Function<? super K, ? extends V> f) {
      throw uoe();
    }

    @Override
    public V merge(K k, V v, BiFunction<? super V, ? super V, ? extends V> f) {
      throw uoe();
    }
  }

  static final class Map1<K, V> extends M<K, V> {
    Map1(K k, V v) {
      super(of(new Object[] {k, v}));
    }
  }

  static final class MapN<K, V> extends M<K, V> {
    MapN(Object... in) {
      super(of(in));
    }
  }
}
