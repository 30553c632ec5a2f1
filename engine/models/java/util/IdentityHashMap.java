package java.util;

/** Model: keys compared by identity. */
public class IdentityHashMap<K, V> extends HashMap<K, V> {
  public IdentityHashMap() {
  }

  public IdentityHashMap(int c) {
  }

  @Override
  int find(Object key) {
    for (int i = 0; i < n; i++) {
      if (ks[i] == key) {
        return i;
      }
    }
    return -1;
  }
}
