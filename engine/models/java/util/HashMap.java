package java.util;

import java.io.Serializable;
import java.util.function.BiConsumer;
import java.util.function.BiFunction;
import java.util.function.Function;

/** Model: association list compared by hash code and equals, like java.util.HashMap; iterates in insertion order. */
public class HashMap<K, V> extends AbstractMap<K, V> implements Map<K, V>, Cloneable, Serializable {
  Object[] ks = new Object[8];
  Object[] vs = new Object[8];
  int[] hs = new int[8];
  int n;
  int mods;

  public HashMap() {
  }

  public HashMap(int c) {
    if (c < 0) {
      throw new IllegalArgumentException("Illegal initial capacity: " + c);
    }
  }

  public HashMap(int c, float f) {
    this(c);
  }

  public HashMap(Map<? extends K, ? extends V> m) {
    putAll(m);
  }

  static final int tableSizeFor(int cap) {
    int n = -1 >>> Integer.numberOfLeadingZeros(cap - 1);
    return (n < 0) ? 1 : (n >= 1 << 30) ? 1 << 30 : n + 1;
  }

  int find(Object key) {
    int h = key == null ? 0 : key.hashCode();
    for (int i = 0; i < n; i++) {
      if (hs[i] == h) {
        Object k = ks[i];
        if (k == key || key != null && key.equals(k)) {
          return i;
        }
      }
    }
    return -1;
  }

  void append(Object key, Object val) {
    if (n == ks.length) {
      int m = n * 2;
      Object[] k2 = new Object[m];
      Object[] v2 = new Object[m];
      int[] h2 = new int[m];
      for (int i = 0; i < n; i++) {
        k2[i] = ks[i];
        v2[i] = vs[i];
        h2[i] = hs[i];
      }
      ks = k2;
      vs = v2;
      hs = h2;
    }
    ks[n] = key;
    vs[n] = val;
    hs[n] = key == null ? 0 : key.hashCode();
    n++;
    mods++;
  }

  void removeAt(int i) {
    for (int j = i; j + 1 < n; j++) {
      ks[j] = ks[j + 1];
      vs[j] = vs[j + 1];
      hs[j] = hs[j + 1];
    }
    n--;
    ks[n] = null;
    vs[n] = null;
    mods++;
  }

  @Override
  public int size() {
    return n;
  }

  @Override
  public boolean isEmpty() {
    return n == 0;
  }

  @SuppressWarnings("unchecked")
  @Override
  public V get(Object key) {
    int i = find(key);
    return i < 0 ? null : (V) vs[i];
  }

  @Override
  public boolean containsKey(Object key) {
    return find(key) >= 0;
  }

  @SuppressWarnings("unchecked")
  @Override
  public V put(K key, V value) {
    int i = find(key);
    if (i < 0) {
      append(key, value);
      return null;
    }
    V old = (V) vs[i];
    vs[i] = value;
    return old;
  }

  @Override
  public void putAll(Map<? extends K, ? extends V> m) {
    for (Map.Entry<? extends K, ? extends V> e : m.entrySet()) {
      put(e.getKey(), e.getValue());
    }
  }

  @SuppressWarnings("unchecked")
  @Override
  public V remove(Object key) {
    int i = find(key);
    if (i < 0) {
      return null;
    }
    V old = (V) vs[i];
    removeAt(i);
    return old;
  }

  @Override
  public void clear() {
    for (int i = 0; i < n; i++) {
      ks[i] = null;
      vs[i] = null;
    }
    n = 0;
    mods++;
  }

  @Override
  public boolean containsValue(Object value) {
    for (int i = 0; i < n; i++) {
      Object v = vs[i];
      if (v == value || value != null && value.equals(v)) {
        return true;
      }
    }
    return false;
  }

  @SuppressWarnings("unchecked")
  @Override
  public V getOrDefault(Object key, V d) {
    int i = find(key);
    return i < 0 ? d : (V) vs[i];
  }

  @SuppressWarnings("unchecked")
  @Override
  public V putIfAbsent(K key, V value) {
    int i = find(key);
    if (i < 0) {
      append(key, value);
      return null;
    }
    V old = (V) vs[i];
    if (old == null) {
      vs[i] = value;
    }
    return old;
  }

  @Override
  public boolean remove(Object key, Object value) {
    int i = find(key);
    if (i < 0 || !Objects.equals(vs[i], value)) {
      return false;
    }
    removeAt(i);
    return true;
  }

  @Override
  public boolean replace(K key, V oldValue, V newValue) {
    int i = find(key);
    if (i < 0 || !Objects.equals(vs[i], oldValue)) {
      return false;
    }
    vs[i] = newValue;
    return true;
  }

  @SuppressWarnings("unchecked")
  @Override
  public V replace(K key, V value) {
    int i = find(key);
    if (i < 0) {
      return null;
    }
    V old = (V) vs[i];
    vs[i] = value;
    return old;
  }

  @SuppressWarnings("unchecked")
  @Override
  public V computeIfAbsent(K key, Function<? super K, ? extends V> f) {
    int i = find(key);
    if (i >= 0 && vs[i] != null) {
      return (V) vs[i];
    }
    int mc = mods;
    V v = f.apply(key);
    if (mc != mods) {
      throw new ConcurrentModificationException();
    }
    if (v != null) {
      if (i >= 0) {
        vs[i] = v;
      } else {
        append(key, v);
      }
    }
    return v;
  }

  @SuppressWarnings("unchecked")
  @Override
  public V computeIfPresent(K key, BiFunction<? super K, ? super V, ? extends V> f) {
    int i = find(key);
    if (i < 0 || vs[i] == null) {
      return null;
    }
    V v = f.apply(key, (V) vs[i]);
    if (v == null) {
      removeAt(i);
    } else {
      vs[i] = v;
    }
    return v;
  }

  @SuppressWarnings("unchecked")
  @Override
  public V compute(K key, BiFunction<? super K, ? super V, ? extends V> f) {
    int i = find(key);
    V v = f.apply(key, i < 0 ? null : (V) vs[i]);
    if (v == null) {
      if (i >= 0) {
        removeAt(i);
      }
    } else if (i >= 0) {
      vs[i] = v;
    } else {
      append(key, v);
    }
    return v;
  }

  @SuppressWarnings("unchecked")
  @Override
  public V merge(K key, V value, BiFunction<? super V, ? super V, ? extends V> f) {
    if (value == null || f == null) {
      throw new NullPointerException();
    }
    int i = find(key);
    V v = i < 0 || vs[i] == null ? value : f.apply((V) vs[i], value);
    if (v == null) {
      removeAt(i);
    } else if (i >= 0) {
      vs[i] = v;
    } else {
      append(key, v);
    }
    return v;
  }

  @SuppressWarnings("unchecked")
  @Override
  public void forEach(BiConsumer<? super K, ? super V> a) {
    int mc = mods;
    for (int i = 0; i < n; i++) {
      a.accept((K) ks[i], (V) vs[i]);
    }
    if (mc != mods) {
      throw new ConcurrentModificationException();
    }
  }

  @SuppressWarnings("unchecked")
  @Override
  public void replaceAll(BiFunction<? super K, ? super V, ? extends V> f) {
    for (int i = 0; i < n; i++) {
      vs[i] = f.apply((K) ks[i], (V) vs[i]);
    }
  }

  @Override
  public Object clone() {
    return new HashMap<>(this);
  }

  @Override
  public Set<K> keySet() {
    return new Keys<>(this);
  }

  @Override
  public Collection<V> values() {
    return new Vals<>(this);
  }

  @Override
  public Set<Map.Entry<K, V>> entrySet() {
    return new Entries<>(this);
  }

  static class Ent<K, V> implements Map.Entry<K, V> {
    final HashMap<K, V> m;
    final K k;

    Ent(HashMap<K, V> m, K k) {
      this.m = m;
      this.k = k;
    }

    @Override
    public K getKey() {
      return k;
    }

    @Override
    public V getValue() {
      return m.get(k);
    }

    @Override
    public V setValue(V v) {
      return m.put(k, v);
    }

    @Override
    public int hashCode() {
      return Objects.hashCode(k) ^ Objects.hashCode(getValue());
    }

    @Override
    public boolean equals(Object o) {
      return o instanceof Map.Entry && Objects.equals(k, ((Map.Entry<?, ?>) o).getKey())
          && Objects.equals(getValue(), ((Map.Entry<?, ?>) o).getValue());
    }

    @Override
    public String toString() {
      return k + "=" + getValue();
    }
  }

  /** Reads its value from the position it was created for. */
  static final class PosEnt<K, V> extends Ent<K, V> {
    final int i;
    V v;

    @SuppressWarnings("unchecked")
    PosEnt(HashMap<K, V> m, int i) {
      super(m, (K) m.ks[i]);
      this.i = i;
      this.v = (V) m.vs[i];
    }

    @Override
    public V getValue() {
      return v;
    }

    @Override
    public V setValue(V nv) {
      V old = v;
      v = nv;
      m.vs[i] = nv;
      return old;
    }
  }

  static class It<K, V> implements Iterator<Object> {
    final HashMap<K, V> m;
    final int kind;
    int pos;
    int expect;
    int last = -1;

    It(HashMap<K, V> m, int kind) {
      this.m = m;
      this.kind = kind;
      this.expect = m.mods;
    }

    @Override
    public boolean hasNext() {
      return pos < m.n;
    }

    @Override
    public Object next() {
      if (m.mods != expect) {
        throw new ConcurrentModificationException();
      }
      if (pos >= m.n) {
        throw new NoSuchElementException();
      }
      last = pos++;
      return kind == 0 ? m.ks[last] : kind == 1 ? m.vs[last] : new PosEnt<>(m, last);
    }

    @Override
    public void remove() {
      if (last < 0) {
        throw new IllegalStateException();
      }
      if (m.mods != expect) {
        throw new ConcurrentModificationException();
      }
      m.removeAt(last);
      pos = last;
      last = -1;
      expect = m.mods;
    }
  }

  static final class Keys<K, V> extends AbstractSet<K> {
    final HashMap<K, V> m;

    Keys(HashMap<K, V> m) {
      this.m = m;
    }

    @Override
    public int size() {
      return m.n;
    }

    @Override
    public boolean contains(Object o) {
      return m.containsKey(o);
    }

    @Override
    public boolean remove(Object o) {
      int i = m.find(o);
      if (i < 0) {
        return false;
      }
      m.removeAt(i);
      return true;
    }

    @Override
    public void clear() {
      m.clear();
    }

    @SuppressWarnings("unchecked")
    @Override
    public Iterator<K> iterator() {
      return (Iterator<K>) (Iterator<?>) new It<>(m, 0);
    }
  }

  static final class Vals<K, V> extends AbstractCollection<V> {
    final HashMap<K, V> m;

    Vals(HashMap<K, V> m) {
      this.m = m;
    }

    @Override
    public int size() {
      return m.n;
    }

    @Override
    public void clear() {
      m.clear();
    }

    @SuppressWarnings("unchecked")
    @Override
    public Iterator<V> iterator() {
      return (Iterator<V>) (Iterator<?>) new It<>(m, 1);
    }
  }

  static final class Entries<K, V> extends AbstractSet<Map.Entry<K, V>> {
    final HashMap<K, V> m;

    Entries(HashMap<K, V> m) {
      this.m = m;
    }

    @Override
    public int size() {
      return m.n;
    }

    @Override
    public void clear() {
      m.clear();
    }

    @SuppressWarnings("unchecked")
    @Override
    public Iterator<Map.Entry<K, V>> iterator() {
      return (Iterator<Map.Entry<K, V>>) (Iterator<?>) new It<>(m, 2);
    }
  }
}
