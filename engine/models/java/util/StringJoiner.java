package java.util;

/** Model. */
public final class StringJoiner {
  private final String delimiter, prefix, suffix;
  private String body;
  private String empty;

  public StringJoiner(CharSequence d) {
    this(d, "", "");
  }

  public StringJoiner(CharSequence d, CharSequence p, CharSequence s) {
    delimiter = d.toString();
    prefix = p.toString();
    suffix = s.toString();
  }

  public StringJoiner setEmptyValue(CharSequence e) {
    empty = e.toString();
    return this;
  }

  public StringJoiner add(CharSequence e) {
    String v = String.valueOf(e);
    body = body == null ? v : body.concat(delimiter).concat(v);
    return this;
  }

  public int length() {
    return toString().length();
  }

  @Override
  public String toString() {
    if (body == null) {
      return empty != null ? empty : prefix.concat(suffix);
    }
    return prefix.concat(body).concat(suffix);
  }
}
