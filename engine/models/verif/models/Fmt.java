package verif.models;

/** Models of String.format, String.valueOf and String.join. */
public final class Fmt {
  private Fmt() {
  }

  public static String valueOf(Object o) {
    return o == null ? "null" : o.toString();
  }

  public static native void unsupported(String what);

  public static String format(java.util.Locale l, String f, Object[] args) {
    return format(f, args);
  }

  public static String lower(String s, java.util.Locale l) {
    return s.toLowerCase();
  }

  public static String upper(String s, java.util.Locale l) {
    return s.toUpperCase();
  }

  public static String format(String f, Object[] args) {
    String out = "";
    int from = 0, next = 0;
    while (true) {
      int i = f.indexOf('%', from);
      if (i < 0) {
        return out.concat(f.substring(from));
      }
      out = out.concat(f.substring(from, i));
      char c = f.charAt(i + 1);
      if (c == '%') {
        out = out.concat("%");
      } else if (c == 'n') {
        out = out.concat("\n");
      } else if (c == 's' || c == 'd' || c == 'b') {
        if (next >= args.length) {
          throw new java.util.MissingFormatArgumentException("%" + c);
        }
        Object a = args[next++];
        if (c == 'd' && !(a == null || a instanceof Integer || a instanceof Long || a instanceof Short
            || a instanceof Byte)) {
          throw new java.util.IllegalFormatConversionException(c, a.getClass());
        }
        if (c == 'b') {
          a = a instanceof Boolean ? a : (Object) (a != null ? "true" : "false");
        }
        out = out.concat(valueOf(a));
      } else {
        unsupported("format specifier");
      }
      from = i + 2;
    }
  }

  public static String join(CharSequence d, CharSequence[] parts) {
    java.util.StringJoiner j = new java.util.StringJoiner(d);
    for (CharSequence c : parts) {
      j.add(c);
    }
    return j.toString();
  }

  public static String join(CharSequence d, Iterable<? extends CharSequence> parts) {
    java.util.StringJoiner j = new java.util.StringJoiner(d);
    for (CharSequence c : parts) {
      j.add(c);
    }
    return j.toString();
  }
}
