package java.util;

/** Model. */
public class LinkedHashMap<K, V> extends HashMap<K, V> {
  public LinkedHashMap() {
  }

  public LinkedHashMap(int c) {
    super(c);
  }

  public LinkedHashMap(int c, float f) {
    super(c);
  }

  public LinkedHashMap(Map<? extends K, ? extends V> m) {
    super(m);
  }
}
