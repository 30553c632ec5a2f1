package symvm;

import java.util.ArrayList;
import java.util.List;

/** Symbolic string content: length and characters (zero beyond the length); ch == null: unknown content (and length, if len == null). */
final class SymStr {
  private Expr len;
  private Expr[] ch;
  private java.util.function.Supplier<SymStr> lazy;
  final String tag;

  SymStr(Expr len, Expr[] ch, String tag) {
    this.len = len;
    this.ch = ch;
    this.tag = tag;
  }

  static SymStr opaque(String tag) {
    return new SymStr(null, null, tag);
  }

  /** Content computed when it is first needed. */
  static SymStr lazy(java.util.function.Supplier<SymStr> content, String tag) {
    SymStr r = new SymStr(null, null, tag);
    r.lazy = content;
    return r;
  }

  private void force() {
    if (lazy != null) {
      java.util.function.Supplier<SymStr> l = lazy;
      SymStr r = l.get();
      r.force();
      len = r.len;
      ch = r.ch;
      lazy = null;
    }
  }

  Expr len() {
    force();
    return len;
  }

  Expr[] ch() {
    force();
    return ch;
  }

  boolean isOpaque() {
    force();
    return ch == null;
  }

  static SymStr of(X x, Object payload) {
    if (payload instanceof SymStr) {
      return (SymStr) payload;
    }
    String s = (String) payload;
    Expr[] c = new Expr[s.length()];
    for (int i = 0; i < c.length; i++) {
      c[i] = x.i(s.charAt(i));
    }
    return new SymStr(x.i(c.length), c, null);
  }

  static Object merge(Vm vm, Expr g, Object a, Object b) {
    if (a == null) {
      return b;
    }
    if (b == null) {
      return a;
    }
    SymStr p = of(vm.x, a), q = of(vm.x, b);
    if (p.lazy != null || q.lazy != null) {
      return lazy(() -> merged(vm, g, p, q), "merged");
    }
    return merged(vm, g, p, q);
  }

  private static SymStr merged(Vm vm, Expr g, SymStr p, SymStr q) {
    if (p.isOpaque() || q.isOpaque()) {
      return p.len() == null || q.len() == null ? opaque("merged")
          : new SymStr(vm.x.ite(g, p.len, q.len), null, "merged");
    }
    Expr[] c = new Expr[Math.max(p.ch.length, q.ch.length)];
    for (int i = 0; i < c.length; i++) {
      Expr z = vm.x.i(0);
      c[i] = vm.x.ite(g, i >= p.ch.length ? z : p.ch[i], i >= q.ch.length ? z : q.ch[i]);
    }
    return new SymStr(vm.x.ite(g, p.len, q.len), c, null);
  }

  private static void need(SymStr s) {
    if (s.isOpaque()) {
      throw new Unsupported("content of a computed string depends on symbolic data (" + s.tag + ")");
    }
  }

  static Expr eq(X x, Object a, Object b) {
    if (a == b) {
      return x.T;
    }
    if (a instanceof String && b instanceof String) {
      return x.bool(a.equals(b));
    }
    SymStr p = of(x, a), q = of(x, b);
    need(p);
    need(q);
    List<Expr> c = new ArrayList<>();
    c.add(x.eq(p.len, q.len));
    int n = Math.min(p.ch.length, q.ch.length);
    c.add(x.not(x.slt(x.i(n), p.len)));
    c.add(x.not(x.slt(x.i(n), q.len)));
    for (int i = 0; i < n; i++) {
      c.add(x.eq(p.ch[i], q.ch[i]));
    }
    return x.and(c);
  }

  static Expr hash(X x, Object a) {
    if (a instanceof String) {
      return x.i(a.hashCode());
    }
    SymStr p = of(x, a);
    need(p);
    Expr h = x.i(0);
    Expr r = h;
    for (int i = 0; i < p.ch.length; i++) {
      h = x.add(x.bin(Expr.SUB, x.bin(Expr.SHL, h, x.i(5)), h), p.ch[i]);
      r = x.ite(x.slt(x.i(i), p.len), h, r);
    }
    return r;
  }

  static Expr length(X x, Object a) {
    SymStr p = of(x, a);
    if (p.len() == null) {
      need(p);
    }
    return p.len;
  }

  static SymStr ch1(X x, Expr c) {
    return new SymStr(x.i(1), new Expr[] {c}, null);
  }

  private static final int MAX = 80;

  private static SymStr build(X x, int n, Expr len, java.util.function.IntFunction<Expr> at) {
    if (n > MAX) {
      return new SymStr(len, null, "long string");
    }
    Expr[] c = new Expr[n];
    for (int i = 0; i < n; i++) {
      c[i] = x.ite(x.slt(x.i(i), len), at.apply(i), x.i(0));
    }
    return new SymStr(len, c, null);
  }

  /** Character at a possibly symbolic position, zero outside the string. */
  Expr at(X x, Expr pos) {
    Expr r = x.i(0);
    for (int i = 0; i < ch.length; i++) {
      r = x.ite(x.eq(pos, x.i(i)), ch[i], r);
    }
    return r;
  }

  static SymStr concat(X x, SymStr p, SymStr q) {
    if (p.isOpaque() || q.isOpaque()) {
      return p.len() == null || q.len() == null ? opaque("concatenation")
          : new SymStr(x.add(p.len, q.len), null, "concatenation");
    }
    int n = p.ch.length + q.ch.length;
    return build(x, n, x.add(p.len, q.len), i -> x.ite(x.slt(x.i(i), p.len),
        i < p.ch.length ? p.ch[i] : x.i(0), q.at(x, x.bin(Expr.SUB, x.i(i), p.len))));
  }

  static SymStr sub(X x, SymStr p, Expr from, Expr to) {
    if (p.isOpaque()) {
      return opaque("substring");
    }
    return build(x, p.ch.length, x.bin(Expr.SUB, to, from), i -> p.at(x, x.add(x.i(i), from)));
  }

  static SymStr map(X x, SymStr p, java.util.function.UnaryOperator<Expr> fn) {
    if (p.isOpaque()) {
      return opaque("mapped");
    }
    return build(x, p.ch.length, p.len, i -> fn.apply(p.ch[i]));
  }

  static Expr isWhite(X x, Expr c, boolean trim) {
    if (trim) {
      return x.not(x.slt(x.i(' '), c));
    }
    int[][] rs = {{9, 13}, {28, 32}, {0x1680, 0x1680}, {0x2000, 0x2006}, {0x2008, 0x200a}, {0x2028, 0x2029},
        {0x205f, 0x205f}, {0x3000, 0x3000}};
    List<Expr> os = new ArrayList<>();
    for (int[] r : rs) {
      os.add(x.and(x.not(x.slt(c, x.i(r[0]))), x.not(x.slt(x.i(r[1]), c))));
    }
    return x.or(os);
  }

  static SymStr trim(X x, SymStr p, boolean trim) {
    if (p.isOpaque()) {
      return opaque("trimmed");
    }
    Expr from = p.len, to = x.i(0);
    for (int i = p.ch.length - 1; i >= 0; i--) {
      Expr in = x.and(x.slt(x.i(i), p.len), x.not(isWhite(x, p.ch[i], trim)));
      from = x.ite(in, x.i(i), from);
    }
    for (int i = 0; i < p.ch.length; i++) {
      Expr in = x.and(x.slt(x.i(i), p.len), x.not(isWhite(x, p.ch[i], trim)));
      to = x.ite(in, x.i(i + 1), to);
    }
    Expr f = from, t = x.ite(x.slt(to, from), from, to);
    return sub(x, p, f, t);
  }

  static Expr isBlank(X x, SymStr p) {
    need(p);
    List<Expr> c = new ArrayList<>();
    for (int i = 0; i < p.ch.length; i++) {
      c.add(x.or(x.not(x.slt(x.i(i), p.len)), isWhite(x, p.ch[i], false)));
    }
    return x.and(c);
  }

  /** First position at or after {@code from} where q occurs, -1 if none. */
  static Expr indexOf(X x, SymStr p, SymStr q, Expr from) {
    need(p);
    need(q);
    Expr r = x.i(-1);
    for (int i = p.ch.length; i >= 0; i--) {
      List<Expr> c = new ArrayList<>();
      c.add(x.not(x.slt(x.i(i), from)));
      c.add(x.not(x.slt(p.len, x.add(x.i(i), q.len))));
      for (int k = 0; k < q.ch.length; k++) {
        Expr past = x.not(x.slt(x.i(k), q.len));
        c.add(i + k < p.ch.length ? x.or(past, x.eq(p.ch[i + k], q.ch[k])) : past);
      }
      r = x.ite(x.and(c), x.i(i), r);
    }
    return r;
  }
}
