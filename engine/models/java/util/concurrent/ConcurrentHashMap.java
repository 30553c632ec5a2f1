package java.util.concurrent;

import java.io.Serializable;
import java.util.AbstractCollection;
import java.util.AbstractMap;
import java.util.AbstractSet;
import java.util.Collection;
import java.util.Iterator;
import java.util.Map;
import java.util.NoSuchElementException;
import java.util.Objects;
import java.util.Set;
import java.util.function.BiConsumer;
import java.util.function.BiFunction;
import java.util.function.Function;

/** Model: association list with atomic operations and weakly consistent iteration (removed slots stay empty). */
public class ConcurrentHashMap<K, V> extends AbstractMap<K, V> implements ConcurrentMap<K, V>, Serializable {
  Object[] ks = new Object[8];
  Object[] vs = new Object[8];
  int[] hs = new int[8];
  int n;
  int live;

  public ConcurrentHashMap() {
  }

  public ConcurrentHashMap(int c) {
  }

  public ConcurrentHashMap(int c, float f) {
  }

  public ConcurrentHashMap(int c, float f, int l) {
  }

  public ConcurrentHashMap(Map<? extends K, ? extends V> m) {
    putAll(m);
  }

  int find(Object key) {
    int h = key.hashCode();
    for (int i = 0; i < n; i++) {
      Object k = ks[i];
      if (k != null && hs[i] == h && (k == key || key.equals(k))) {
        return i;
      }
    }
    return -1;
  }

  void append(Object key, Object val) {
    if (n == ks.length) {
      int m = n * 2;
      Object[] k2 = new Object[m];
      Object[] v2 = new Object[m];
      int[] h2 = new int[m];
      for (int i = 0; i < n; i++) {
        k2[i] = ks[i];
        v2[i] = vs[i];
        h2[i] = hs[i];
      }
      ks = k2;
      vs = v2;
      hs = h2;
    }
    ks[n] = key;
    vs[n] = val;
    hs[n] = key.hashCode();
    n++;
    live++;
  }

  void removeAt(int i) {
    ks[i] = null;
    vs[i] = null;
    live--;
  }

  @Override
  public int size() {
    return live;
  }

  public long mappingCount() {
    return live;
  }

  @Override
  public boolean isEmpty() {
    return live == 0;
  }

  @SuppressWarnings("unchecked")
  @Override
  public V get(Object key) {
    int i = find(key);
    return i < 0 ? null : (V) vs[i];
  }

  @SuppressWarnings("unchecked")
  @Override
  public V getOrDefault(Object key, V d) {
    int i = find(key);
    return i < 0 ? d : (V) vs[i];
  }

  @Override
  public boolean containsKey(Object key) {
    return find(key) >= 0;
  }

  public boolean contains(Object v) {
    return containsValue(v);
  }

  @Override
  public boolean containsValue(Object v) {
    Objects.requireNonNull(v);
    for (int i = 0; i < n; i++) {
      if (ks[i] != null && v.equals(vs[i])) {
        return true;
      }
    }
    return false;
  }

  @SuppressWarnings("unchecked")
  @Override
  public V put(K key, V value) {
    if (value == null) {
      throw new NullPointerException();
    }
    int i = find(key);
    if (i < 0) {
      append(key, value);
      return null;
    }
    V old = (V) vs[i];
    vs[i] = value;
    return old;
  }

  @Override
  public void putAll(Map<? extends K, ? extends V> m) {
    for (Map.Entry<? extends K, ? extends V> e : m.entrySet()) {
      put(e.getKey(), e.getValue());
    }
  }

  @SuppressWarnings("unchecked")
  @Override
  public V putIfAbsent(K key, V value) {
    if (value == null) {
      throw new NullPointerException();
    }
    int i = find(key);
    if (i < 0) {
      append(key, value);
      return null;
    }
    return (V) vs[i];
  }

  @SuppressWarnings("unchecked")
  @Override
  public V remove(Object key) {
    int i = find(key);
    if (i < 0) {
      return null;
    }
    V old = (V) vs[i];
    removeAt(i);
    return old;
  }

  @Override
  public boolean remove(Object key, Object value) {
    int i = find(key);
    if (i < 0 || value == null || !value.equals(vs[i])) {
      return false;
    }
    removeAt(i);
    return true;
  }

  @Override
  public boolean replace(K key, V oldValue, V newValue) {
    int i = find(key);
    if (i < 0 || !oldValue.equals(vs[i])) {
      return false;
    }
    vs[i] = newValue;
    return true;
  }

  @SuppressWarnings("unchecked")
  @Override
  public V replace(K key, V value) {
    int i = find(key);
    if (i < 0) {
      return null;
    }
    V old = (V) vs[i];
    vs[i] = value;
    return old;
  }

  @Override
  public void clear() {
    for (int i = 0; i < n; i++) {
      ks[i] = null;
      vs[i] = null;
    }
    live = 0;
  }

  @SuppressWarnings("unchecked")
  @Override
  public V computeIfAbsent(K key, Function<? super K, ? extends V> f) {
    int i = find(key);
    if (i >= 0) {
      return (V) vs[i];
    }
    V v = f.apply(key);
    if (v != null) {
      append(key, v);
    }
    return v;
  }

  @SuppressWarnings("unchecked")
  @Override
  public V computeIfPresent(K key, BiFunction<? super K, ? super V, ? extends V> f) {
    int i = find(key);
    if (i < 0) {
      return null;
    }
    V v = f.apply(key, (V) vs[i]);
    if (v == null) {
      removeAt(i);
    } else {
      vs[i] = v;
    }
    return v;
  }

  @SuppressWarnings("unchecked")
  @Override
  public V compute(K key, BiFunction<? super K, ? super V, ? extends V> f) {
    int i = find(key);
    V v = f.apply(key, i < 0 ? null : (V) vs[i]);
    if (v == null) {
      if (i >= 0) {
        removeAt(i);
      }
    } else if (i >= 0) {
      vs[i] = v;
    } else {
      append(key, v);
    }
    return v;
  }

  @SuppressWarnings("unchecked")
  @Override
  public V merge(K key, V value, BiFunction<? super V, ? super V, ? extends V> f) {
    int i = find(key);
    V v = i < 0 ? value : f.apply((V) vs[i], value);
    if (v == null) {
      removeAt(i);
    } else if (i >= 0) {
      vs[i] = v;
    } else {
      append(key, v);
    }
    return v;
  }

  @SuppressWarnings("unchecked")
  @Override
  public void forEach(BiConsumer<? super K, ? super V> a) {
    for (int i = 0; i < n; i++) {
      Object k = ks[i], v = vs[i];
      if (k != null) {
        a.accept((K) k, (V) v);
      }
    }
  }

  @Override
  public KeySetView<K, V> keySet() {
    return new KeySetView<>(this, null);
  }

  @SuppressWarnings("unchecked")
  public static <T> KeySetView<T, Boolean> newKeySet() {
    return new KeySetView<>(new ConcurrentHashMap<T, Boolean>(), Boolean.TRUE);
  }

  public static <T> KeySetView<T, Boolean> newKeySet(int c) {
    return newKeySet();
  }

  @Override
  public Collection<V> values() {
    return new Vals<>(this);
  }

  @Override
  public Set<Map.Entry<K, V>> entrySet() {
    return new Entries<>(this);
  }

  static final class Ent<K, V> implements Map.Entry<K, V> {
    final ConcurrentHashMap<K, V> m;
    final K k;
    V v;

    Ent(ConcurrentHashMap<K, V> m, K k, V v) {
      this.m = m;
      this.k = k;
      this.v = v;
    }

    @Override
    public K getKey() {
      return k;
    }

    @Override
    public V getValue() {
      return v;
    }

    @Override
    public V setValue(V nv) {
      v = nv;
      return m.put(k, nv);
    }

    @Override
    public String toString() {
      return k + "=" + v;
    }
  }

  static final class It<K, V> implements Iterator<Object> {
    final ConcurrentHashMap<K, V> m;
    final int kind;
    int pos;
    Object nk;
    Object nv;
    Object lk;

    It(ConcurrentHashMap<K, V> m, int kind) {
      this.m = m;
      this.kind = kind;
      advance();
    }

    private void advance() {
      nk = null;
      while (nk == null && pos < m.n) {
        nk = m.ks[pos];
        nv = m.vs[pos];
        pos++;
      }
    }

    @Override
    public boolean hasNext() {
      return nk != null;
    }

    @SuppressWarnings("unchecked")
    @Override
    public Object next() {
      if (nk == null) {
        throw new NoSuchElementException();
      }
      Object k = nk, v = nv;
      lk = k;
      advance();
      return kind == 0 ? k : kind == 1 ? v : new Ent<>(m, (K) k, (V) v);
    }

    @Override
    public void remove() {
      if (lk == null) {
        throw new IllegalStateException();
      }
      m.remove(lk);
      lk = null;
    }
  }

  public static final class KeySetView<K, V> extends AbstractSet<K> implements Set<K>, Serializable {
    final ConcurrentHashMap<K, V> m;
    final V dflt;

    KeySetView(ConcurrentHashMap<K, V> m, V dflt) {
      this.m = m;
      this.dflt = dflt;
    }

    @Override
    public int size() {
      return m.live;
    }

    @Override
    public boolean contains(Object o) {
      return m.containsKey(o);
    }

    @Override
    public boolean add(K k) {
      if (dflt == null) {
        throw new UnsupportedOperationException();
      }
      return m.putIfAbsent(k, dflt) == null;
    }

    @Override
    public boolean remove(Object o) {
      return m.remove(o) != null;
    }

    @Override
    public void clear() {
      m.clear();
    }

    @SuppressWarnings("unchecked")
    @Override
    public Iterator<K> iterator() {
      return (Iterator<K>) (Iterator<?>) new It<>(m, 0);
    }
  }

  static final class Vals<K, V> extends AbstractCollection<V> {
    final ConcurrentHashMap<K, V> m;

    Vals(ConcurrentHashMap<K, V> m) {
      this.m = m;
    }

    @Override
    public int size() {
      return m.live;
    }

    @SuppressWarnings("unchecked")
    @Override
    public Iterator<V> iterator() {
      return (Iterator<V>) (Iterator<?>) new It<>(m, 1);
    }
  }

  static final class Entries<K, V> extends AbstractSet<Map.Entry<K, V>> {
    final ConcurrentHashMap<K, V> m;

    Entries(ConcurrentHashMap<K, V> m) {
      this.m = m;
    }

    @Override
    public int size() {
      return m.live;
    }

    @SuppressWarnings("unchecked")
    @Override
    public Iterator<Map.Entry<K, V>> iterator() {
      return (Iterator<Map.Entry<K, V>>) (Iterator<?>) new It<>(m, 2);
    }
  }
}
