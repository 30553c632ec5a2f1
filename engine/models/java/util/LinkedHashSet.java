package java.util;

/** Model. */
public class LinkedHashSet<E> extends HashSet<E> {
  public LinkedHashSet() {
  }

  public LinkedHashSet(int c) {
  }

  public LinkedHashSet(int c, float f) {
  }

  public LinkedHashSet(Collection<? extends E> c) {
    super(c);
  }
}
