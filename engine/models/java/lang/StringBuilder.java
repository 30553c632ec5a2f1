package java.lang;

/** Model: an immutable string replaced on every append. */
public final class StringBuilder implements java.io.Serializable, Comparable<StringBuilder>, CharSequence, Appendable {
  String s = "";

  public StringBuilder() {
  }

  public StringBuilder(int c) {
  }

  public StringBuilder(String v) {
    s = v.toString();
  }

  public StringBuilder(CharSequence v) {
    s = v.toString();
  }

  public StringBuilder append(Object o) {
    s = s.concat(String.valueOf(o));
    return this;
  }

  public StringBuilder append(String o) {
    s = s.concat(o == null ? "null" : o);
    return this;
  }

  @Override
  public StringBuilder append(CharSequence o) {
    s = s.concat(o == null ? "null" : o.toString());
    return this;
  }

  @Override
  public StringBuilder append(CharSequence o, int a, int b) {
    s = s.concat(o.toString().substring(a, b));
    return this;
  }

  public StringBuilder append(boolean b) {
    s = s.concat(b ? "true" : "false");
    return this;
  }

  @Override
  public StringBuilder append(char c) {
    s = s.concat(Character.toString(c));
    return this;
  }

  public StringBuilder append(int i) {
    s = s.concat(Integer.toString(i));
    return this;
  }

  public StringBuilder append(long i) {
    s = s.concat(Long.toString(i));
    return this;
  }

  public StringBuilder append(double i) {
    s = s.concat(Double.toString(i));
    return this;
  }

  public StringBuilder append(float i) {
    s = s.concat(Float.toString(i));
    return this;
  }

  public StringBuilder append(char[] c) {
    s = s.concat(new String(c));
    return this;
  }

  public StringBuilder insert(int at, String v) {
    s = s.substring(0, at).concat(String.valueOf((Object) v)).concat(s.substring(at));
    return this;
  }

  public StringBuilder deleteCharAt(int i) {
    s = s.substring(0, i).concat(s.substring(i + 1));
    return this;
  }

  public StringBuilder delete(int a, int b) {
    s = s.substring(0, a).concat(s.substring(b > s.length() ? s.length() : b));
    return this;
  }

  public StringBuilder replace(int a, int b, String v) {
    s = s.substring(0, a).concat(v).concat(s.substring(b));
    return this;
  }

  public StringBuilder reverse() {
    String r = "";
    for (int i = s.length() - 1; i >= 0; i--) {
      r = r.concat(String.valueOf(s.charAt(i)));
    }
    s = r;
    return this;
  }

  public void setCharAt(int i, char c) {
    s = s.substring(0, i).concat(String.valueOf(c)).concat(s.substring(i + 1));
  }

  public void setLength(int n) {
    s = s.substring(0, n);
  }

  public int indexOf(String v) {
    return s.indexOf(v);
  }

  public int lastIndexOf(String v) {
    return s.lastIndexOf(v);
  }

  @Override
  public int length() {
    return s.length();
  }

  @Override
  public char charAt(int i) {
    return s.charAt(i);
  }

  @Override
  public boolean isEmpty() {
    return s.isEmpty();
  }

  @Override
  public CharSequence subSequence(int a, int b) {
    return s.substring(a, b);
  }

  public String substring(int a) {
    return s.substring(a);
  }

  public String substring(int a, int b) {
    return s.substring(a, b);
  }

  @Override
  public int compareTo(StringBuilder o) {
    return s.compareTo(o.s);
  }

  @Override
  public String toString() {
    return s;
  }
}
