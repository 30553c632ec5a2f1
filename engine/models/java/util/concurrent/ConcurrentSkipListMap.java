package java.util.concurrent;

import java.util.AbstractMap;
import java.util.ArrayList;
import java.util.Comparator;
import java.util.LinkedHashSet;
import java.util.Map;
import java.util.Objects;
import java.util.Set;
import java.util.TreeMap;
import java.util.TreeSet;
import java.util.function.BiFunction;

/** Model: sorted map with atomic operations; its views are copies, its iterators snapshots. */
public class ConcurrentSkipListMap<K, V> extends AbstractMap<K, V> implements ConcurrentMap<K, V> {
  private final TreeMap<K, V> m;

  public ConcurrentSkipListMap() {
    m = new TreeMap<>();
  }

  public ConcurrentSkipListMap(Comparator<? super K> c) {
    m = new TreeMap<>(c);
  }

  public ConcurrentSkipListMap(Map<? extends K, ? extends V> o) {
    m = new TreeMap<>(o);
  }

  @Override
  public V get(Object k) {
    return m.get(Objects.requireNonNull(k));
  }

  @Override
  public boolean containsKey(Object k) {
    return m.containsKey(Objects.requireNonNull(k));
  }

  @Override
  public V put(K k, V v) {
    return m.put(k, Objects.requireNonNull(v));
  }

  @Override
  public V remove(Object k) {
    return m.remove(Objects.requireNonNull(k));
  }

  @Override
  public int size() {
    return m.size();
  }

  @Override
  public void clear() {
    m.clear();
  }

  public K firstKey() {
    return m.firstKey();
  }

  public K lastKey() {
    return m.lastKey();
  }

  public Map.Entry<K, V> firstEntry() {
    return m.firstEntry();
  }

  public Map.Entry<K, V> lastEntry() {
    return m.lastEntry();
  }

  public Map.Entry<K, V> pollFirstEntry() {
    return m.pollFirstEntry();
  }

  @Override
  public V putIfAbsent(K k, V v) {
    V o = m.get(k);
    if (o == null) {
      put(k, v);
    }
    return o;
  }

  @Override
  public boolean remove(Object k, Object v) {
    V o = m.get(k);
    if (o != null && o.equals(v)) {
      m.remove(k);
      return true;
    }
    return false;
  }

  @Override
  public boolean replace(K k, V a, V b) {
    V o = m.get(k);
    if (o != null && o.equals(a)) {
      m.put(k, b);
      return true;
    }
    return false;
  }

  @Override
  public V replace(K k, V v) {
    return m.get(k) == null ? null : m.put(k, v);
  }

  @Override
  public Set<K> keySet() {
    return new TreeSet<>(m.keySet());
  }

  @Override
  public Set<Map.Entry<K, V>> entrySet() {
    Set<Map.Entry<K, V>> r = new LinkedHashSet<>();
    for (Map.Entry<K, V> e : m.entrySet()) {
      r.add(new SimpleImmutableEntry<>(e.getKey(), e.getValue()));
    }
    return r;
  }
}
