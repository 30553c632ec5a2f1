package symvm;

import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashMap;
import java.util.List;
import java.util.Map;

/** Expression factory with hash-consing and simplification. */
final class X {
  private static final Expr[] NONE = new Expr[0];

  private static final class Key {
    final int op, w, h;
    final long k;
    final Expr[] kids;

    Key(int op, int w, long k, Expr[] kids) {
      this.op = op;
      this.w = w;
      this.k = k;
      this.kids = kids;
      int x = op * 31 + w;
      x = x * 31 + Long.hashCode(k);
      for (Expr e : kids) {
        x = x * 31 + e.id;
      }
      this.h = x ^ x >>> 15;
    }

    @Override
    public int hashCode() {
      return h;
    }

    @Override
    public boolean equals(Object o) {
      Key q = (Key) o;
      if (q.op != op || q.w != w || q.k != k || q.kids.length != kids.length) {
        return false;
      }
      for (int i = 0; i < kids.length; i++) {
        if (kids[i] != q.kids[i]) {
          return false;
        }
      }
      return true;
    }
  }

  private final HashMap<Key, Expr> table = new HashMap<>();
  private int next = 0;
  final List<Expr> vars = new ArrayList<>();
  final List<Long> varDefault = new ArrayList<>();
  final Map<String, Expr> varByName = new HashMap<>();
  final Expr T, F;
  private final Expr[] small = new Expr[1300];

  X() {
    T = mk(Expr.CONST, 0, 1, NONE);
    F = mk(Expr.CONST, 0, 0, NONE);
    T.neg = F;
    F.neg = T;
  }

  int size() {
    return next;
  }

  private Expr mk(int op, int w, long k, Expr... kids) {
    Key key = new Key(op, w, k, kids);
    Expr e = table.get(key);
    if (e == null) {
      e = new Expr(op, w, k, kids, next++, null);
      table.put(key, e);
    }
    return e;
  }

  Expr var(String name, int w, long dflt) {
    Expr e = varByName.get(name);
    if (e == null) {
      e = new Expr(Expr.VAR, w, vars.size(), NONE, next++, name);
      vars.add(e);
      varDefault.add(dflt);
      varByName.put(name, e);
    }
    return e;
  }

  Expr i(long v) {
    v = (int) v;
    if (v >= -256 && v < 1024) {
      Expr e = small[(int) v + 256];
      if (e == null) {
        e = small[(int) v + 256] = mk(Expr.CONST, 32, v, NONE);
      }
      return e;
    }
    return mk(Expr.CONST, 32, v, NONE);
  }

  Expr l(long v) {
    return mk(Expr.CONST, 64, v, NONE);
  }

  Expr fl(float v) {
    return mk(Expr.CONST, Expr.F32, Float.floatToRawIntBits(v), NONE);
  }

  Expr db(double v) {
    return mk(Expr.CONST, Expr.F64, Double.doubleToRawLongBits(v), NONE);
  }

  Expr c(int w, long v) {
    return w == 32 ? i(v) : w == 0 ? (v != 0 ? T : F) : mk(Expr.CONST, w, v, NONE);
  }

  Expr bool(boolean b) {
    return b ? T : F;
  }

  // ---------- booleans

  Expr not(Expr e) {
    if (e.neg != null) {
      return e.neg;
    }
    Expr r;
    switch (e.op) {
      case Expr.NOT:
        r = e.kids[0];
        break;
      case Expr.AND: {
        Expr[] ks = new Expr[e.kids.length];
        for (int i = 0; i < ks.length; i++) {
          ks[i] = not(e.kids[i]);
        }
        r = or(ks);
        break;
      }
      case Expr.OR: {
        Expr[] ks = new Expr[e.kids.length];
        for (int i = 0; i < ks.length; i++) {
          ks[i] = not(e.kids[i]);
        }
        r = and(ks);
        break;
      }
      default:
        r = mk(Expr.NOT, 0, 0, e);
    }
    e.neg = r;
    if (r.neg == null) {
      r.neg = e;
    }
    return r;
  }

  Expr and(Expr... ks) {
    return nary(Expr.AND, ks);
  }

  Expr or(Expr... ks) {
    return nary(Expr.OR, ks);
  }

  Expr and(List<Expr> ks) {
    return nary(Expr.AND, ks.toArray(NONE));
  }

  Expr or(List<Expr> ks) {
    return nary(Expr.OR, ks.toArray(NONE));
  }

  private static int find(Expr[] sorted, int n, Expr e) {
    int lo = 0, hi = n - 1;
    while (lo <= hi) {
      int m = (lo + hi) >>> 1;
      if (sorted[m].id < e.id) {
        lo = m + 1;
      } else if (sorted[m].id > e.id) {
        hi = m - 1;
      } else {
        return m;
      }
    }
    return -1;
  }

  static boolean contains(Expr[] sorted, Expr e) {
    return find(sorted, sorted.length, e) >= 0;
  }

  private Expr nary(int op, Expr[] ks) {
    boolean isAnd = op == Expr.AND;
    Expr zero = isAnd ? F : T;
    Expr one = isAnd ? T : F;
    int other = isAnd ? Expr.OR : Expr.AND;
    for (int round = 0; ; round++) {
      int cnt = 0;
      for (Expr e : ks) {
        cnt += e.op == op ? e.kids.length : 1;
      }
      Expr[] a = new Expr[cnt];
      int n = 0;
      for (Expr e : ks) {
        if (e == zero) {
          return zero;
        }
        if (e == one) {
          continue;
        }
        if (e.op == op) {
          for (Expr q : e.kids) {
            a[n++] = q;
          }
        } else {
          a[n++] = e;
        }
      }
      if (n == 0) {
        return one;
      }
      if (n == 1) {
        return a[0];
      }
      Arrays.sort(a, 0, n, (p, q) -> Integer.compare(p.id, q.id));
      int m = 1;
      for (int i = 1; i < n; i++) {
        if (a[i] != a[m - 1]) {
          a[m++] = a[i];
        }
      }
      n = m;
      if (n == 1) {
        return a[0];
      }
      for (int i = 0; i < n; i++) {
        Expr ne = a[i].neg;
        if (ne == null && a[i].op == Expr.NOT) {
          ne = a[i].kids[0];
        }
        if (ne != null && find(a, n, ne) >= 0) {
          return zero;
        }
      }
      // exclusive equalities: x=1 & x=2 -> false ; dual: x!=1 | x!=2 -> true
      if (n <= 40) {
        for (int i = 0; i < n; i++) {
          Expr p = isAnd ? a[i] : (a[i].op == Expr.NOT ? a[i].kids[0] : null);
          if (p == null || p.op != Expr.EQ || !p.kids[1].isConst()) {
            continue;
          }
          for (int j = i + 1; j < n; j++) {
            Expr q = isAnd ? a[j] : (a[j].op == Expr.NOT ? a[j].kids[0] : null);
            if (q != null && q.op == Expr.EQ && q.kids[0] == p.kids[0] && q.kids[1].isConst()
                && q.kids[1] != p.kids[1]) {
              return zero;
            }
          }
        }
      }
      boolean changed = false;
      if (n <= 64 && round < 8) {
        for (int i = 0; i < n; i++) {
          Expr e = a[i];
          if (e.op != other || e.kids.length > 64) {
            continue;
          }
          int drop = 0;
          boolean absorbed = false;
          for (Expr q : e.kids) {
            if (find(a, n, q) >= 0) {
              absorbed = true;
              break;
            }
            Expr nq = q.neg != null ? q.neg : q.op == Expr.NOT ? q.kids[0] : null;
            if (nq != null && find(a, n, nq) >= 0) {
              drop++;
            }
          }
          if (absorbed) {
            a[i] = one;
            changed = true;
            break;
          } else if (drop > 0) {
            Expr[] nk = new Expr[e.kids.length - drop];
            int z = 0;
            for (Expr q : e.kids) {
              Expr nq = q.neg != null ? q.neg : q.op == Expr.NOT ? q.kids[0] : null;
              if (nq == null || find(a, n, nq) < 0) {
                nk[z++] = q;
              }
            }
            a[i] = nary(other, nk);
            changed = true;
            break;
          }
        }
        // factoring of two dual terms: (p&q)|(p&r) -> p&(q|r)
        if (!changed && n == 2 && a[0].op == other && a[1].op == other) {
          Expr f = factor(op, other, a[0], a[1]);
          if (f != null) {
            return f;
          }
        }
      }
      if (!changed) {
        return mk(op, 0, 0, Arrays.copyOf(a, n));
      }
      ks = Arrays.copyOf(a, n);
    }
  }

  private Expr factor(int op, int other, Expr p, Expr q) {
    List<Expr> common = null;
    for (Expr e : p.kids) {
      if (contains(q.kids, e)) {
        if (common == null) {
          common = new ArrayList<>();
        }
        common.add(e);
      }
    }
    if (common == null) {
      return null;
    }
    List<Expr> r1 = new ArrayList<>(), r2 = new ArrayList<>();
    for (Expr e : p.kids) {
      if (!common.contains(e)) {
        r1.add(e);
      }
    }
    for (Expr e : q.kids) {
      if (!common.contains(e)) {
        r2.add(e);
      }
    }
    Expr x1 = nary(other, r1.toArray(NONE));
    Expr x2 = nary(other, r2.toArray(NONE));
    common.add(nary(op, new Expr[] {x1, x2}));
    return nary(other, common.toArray(NONE));
  }

  Expr ite(Expr c, Expr a, Expr b) {
    if (c == T || a == b) {
      return a;
    }
    if (c == F) {
      return b;
    }
    if (a.w != b.w) {
      throw new Unsupported("ite of widths " + a.w + " and " + b.w);
    }
    if (a.w == 0) {
      if (a == T) {
        return or(c, b);
      }
      if (a == F) {
        return and(not(c), b);
      }
      if (b == T) {
        return or(not(c), a);
      }
      if (b == F) {
        return and(c, a);
      }
      return or(and(c, a), and(not(c), b));
    }
    if (a.w > 64) {
      throw new Unsupported("symbolic floating point");
    }
    if (c.op == Expr.NOT) {
      return ite(c.kids[0], b, a);
    }
    if (a.op == Expr.ITE) {
      if (a.kids[0] == c) {
        return ite(c, a.kids[1], b);
      }
      if (a.kids[2] == b) {
        return ite(and(c, a.kids[0]), a.kids[1], b);
      }
      if (a.kids[1] == b) {
        return ite(and(c, not(a.kids[0])), a.kids[2], b);
      }
    }
    if (b.op == Expr.ITE) {
      if (b.kids[0] == c) {
        return ite(c, a, b.kids[2]);
      }
      if (b.kids[1] == a) {
        return ite(or(c, b.kids[0]), a, b.kids[2]);
      }
      if (b.kids[2] == a) {
        return ite(and(not(c), b.kids[0]), b.kids[1], a);
      }
    }
    // compact ITE trees over few constants
    long[] la = a.leaves(), lb = b.leaves();
    if (la != null && lb != null && la.length + lb.length >= 4) {
      Expr probe = mk(Expr.ITE, a.w, 0, c, a, b);
      long[] ls = probe.leaves();
      if (ls != null && ls.length <= 3 && la.length + lb.length > ls.length) {
        Expr r = c(a.w, ls[ls.length - 1]);
        for (int i = ls.length - 2; i >= 0; i--) {
          Expr v = c(a.w, ls[i]);
          r = mkIte(or(and(c, eq(a, v)), and(not(c), eq(b, v))), v, r);
        }
        return r;
      }
      return probe;
    }
    return mk(Expr.ITE, a.w, 0, c, a, b);
  }

  private Expr mkIte(Expr c, Expr a, Expr b) {
    if (c == T || a == b) {
      return a;
    }
    if (c == F) {
      return b;
    }
    if (c.op == Expr.NOT) {
      return mk(Expr.ITE, a.w, 0, c.kids[0], b, a);
    }
    return mk(Expr.ITE, a.w, 0, c, a, b);
  }

  private final HashMap<Long, Expr> eqMemo = new HashMap<>();

  Expr eq(Expr a, Expr b) {
    if (a == b) {
      return T;
    }
    if (a.isConst() && b.isConst()) {
      return bool(a.k == b.k);
    }
    if (a.isConst()) {
      Expr t = a;
      a = b;
      b = t;
    }
    if (a.w == 0) {
      if (b == T) {
        return a;
      }
      if (b == F) {
        return not(a);
      }
      return or(and(a, b), and(not(a), not(b)));
    }
    if (b.isConst()) {
      if (a.op == Expr.ITE) {
        long key = (long) a.id << 32 | b.id;
        Expr r = eqMemo.get(key);
        if (r == null) {
          long[] ls = a.leaves();
          if (ls != null && Arrays.binarySearch(ls, b.k) < 0) {
            r = F;
          } else {
            r = ite(a.kids[0], eq(a.kids[1], b), eq(a.kids[2], b));
          }
          eqMemo.put(key, r);
        }
        return r;
      }
      if (a.op == Expr.ADD && a.kids[1].isConst()) {
        return eq(a.kids[0], c(a.w, b.k - a.kids[1].k));
      }
      if (a.op == Expr.SEXT) {
        if (b.k != (int) b.k) {
          return F;
        }
        return eq(a.kids[0], i(b.k));
      }
      return mk(Expr.EQ, 0, 0, a, b);
    }
    long[] la = a.leaves(), lb = b.leaves();
    if (la != null && lb != null && a.op == Expr.ITE && b.op == Expr.ITE) {
      List<Expr> os = new ArrayList<>();
      for (long v : la) {
        if (Arrays.binarySearch(lb, v) >= 0) {
          Expr k = c(a.w, v);
          os.add(and(eq(a, k), eq(b, k)));
        }
      }
      return or(os);
    }
    if (a.id > b.id) {
      Expr t = a;
      a = b;
      b = t;
    }
    return mk(Expr.EQ, 0, 0, a, b);
  }

  static long fold(int op, int w, long x, long y) {
    long r;
    switch (op) {
      case Expr.ADD:
        r = x + y;
        break;
      case Expr.SUB:
        r = x - y;
        break;
      case Expr.MUL:
        r = x * y;
        break;
      case Expr.SDIV:
        r = w == 32 ? (int) x / (int) y : x / y;
        break;
      case Expr.SREM:
        r = w == 32 ? (int) x % (int) y : x % y;
        break;
      case Expr.BAND:
        r = x & y;
        break;
      case Expr.BOR:
        r = x | y;
        break;
      case Expr.BXOR:
        r = x ^ y;
        break;
      case Expr.SHL:
        r = w == 32 ? (int) x << (int) y : x << (int) y;
        break;
      case Expr.LSHR:
        r = w == 32 ? (int) x >>> (int) y : x >>> (int) y;
        break;
      case Expr.ASHR:
        r = w == 32 ? (int) x >> (int) y : x >> (int) y;
        break;
      case Expr.SLT:
        return x < y ? 1 : 0;
      case Expr.ULT:
        return (w == 32 ? Integer.compareUnsigned((int) x, (int) y) : Long.compareUnsigned(x, y)) < 0 ? 1 : 0;
      case Expr.LO32:
        return (int) x;
      case Expr.SEXT:
        return x;
      default:
        throw new IllegalStateException("fold " + op);
    }
    return w == 32 ? (int) r : r;
  }

  private final HashMap<Key, Expr> binMemo = new HashMap<>();

  /** Binary operation on equal-width operands (shifts: amount already masked and widened). SLT/ULT give booleans. */
  Expr bin(int op, Expr a, Expr b) {
    int w = a.w;
    boolean rel = op == Expr.SLT || op == Expr.ULT;
    if (a.isConst() && b.isConst()) {
      long r = fold(op, w, a.k, b.k);
      return rel ? bool(r != 0) : c(w, r);
    }
    if (b.isConst()) {
      if (b.k == 0 && (op == Expr.ADD || op == Expr.SUB || op == Expr.BOR || op == Expr.BXOR || op == Expr.SHL
          || op == Expr.LSHR || op == Expr.ASHR)) {
        return a;
      }
      if (b.k == 0 && (op == Expr.MUL || op == Expr.BAND)) {
        return b;
      }
      if (b.k == -1 && op == Expr.BAND) {
        return a;
      }
      if (b.k == 1 && (op == Expr.MUL || op == Expr.SDIV)) {
        return a;
      }
      if (op == Expr.SUB) {
        return bin(Expr.ADD, a, c(w, -b.k));
      }
      if (op == Expr.ADD && a.op == Expr.ADD && a.kids[1].isConst()) {
        return bin(Expr.ADD, a.kids[0], c(w, a.kids[1].k + b.k));
      }
    } else if (a.isConst() && (op == Expr.ADD || op == Expr.MUL || op == Expr.BAND || op == Expr.BOR
        || op == Expr.BXOR)) {
      return bin(op, b, a);
    }
    if (a == b) {
      if (rel) {
        return F;
      }
      if (op == Expr.SUB || op == Expr.BXOR) {
        return c(w, 0);
      }
      if (op == Expr.BAND || op == Expr.BOR) {
        return a;
      }
    }
    long[] la = a.leaves(), lb = b.leaves();
    if (la != null && lb != null && la.length * lb.length <= 256 && op != Expr.SDIV && op != Expr.SREM) {
      Key key = new Key(op, 1000 + w, 0, new Expr[] {a, b});
      Expr r = binMemo.get(key);
      if (r == null) {
        if (b.isConst()) {
          r = mapIte(op, a, b, false);
        } else if (a.isConst()) {
          r = mapIte(op, b, a, true);
        } else {
          java.util.TreeMap<Long, List<Expr>> res = new java.util.TreeMap<>();
          for (long x : la) {
            for (long y : lb) {
              long v = fold(op, w, x, y);
              res.computeIfAbsent(v, z -> new ArrayList<>()).add(and(eq(a, c(w, x)), eq(b, c(w, y))));
            }
          }
          if (rel) {
            r = res.containsKey(1L) ? or(res.get(1L)) : F;
          } else {
            for (Map.Entry<Long, List<Expr>> en : res.entrySet()) {
              Expr v = c(w, en.getKey());
              r = r == null ? v : ite(or(en.getValue()), v, r);
            }
          }
        }
        binMemo.put(key, r);
      }
      return r;
    }
    return mk(op, rel ? 0 : w, 0, a, b);
  }

  private Expr mapIte(int op, Expr t, Expr k, boolean constLeft) {
    if (t.isConst()) {
      return constLeft ? bin(op, k, t) : bin(op, t, k);
    }
    Key key = new Key(op, (constLeft ? 3000 : 2000) + t.w, 0, new Expr[] {t, k});
    Expr r = binMemo.get(key);
    if (r == null) {
      r = ite(t.kids[0], mapIte(op, t.kids[1], k, constLeft), mapIte(op, t.kids[2], k, constLeft));
      binMemo.put(key, r);
    }
    return r;
  }

  Expr add(Expr a, Expr b) {
    return bin(Expr.ADD, a, b);
  }

  Expr slt(Expr a, Expr b) {
    return bin(Expr.SLT, a, b);
  }

  Expr lo32(Expr a) {
    if (a.isConst()) {
      return i(a.k);
    }
    if (a.op == Expr.SEXT) {
      return a.kids[0];
    }
    if (a.op == Expr.ITE) {
      return ite(a.kids[0], lo32(a.kids[1]), lo32(a.kids[2]));
    }
    return mk(Expr.LO32, 32, 0, a);
  }

  Expr sext(Expr a) {
    if (a.isConst()) {
      return l(a.k);
    }
    if (a.op == Expr.ITE && a.leaves() != null) {
      return ite(a.kids[0], sext(a.kids[1]), sext(a.kids[2]));
    }
    return mk(Expr.SEXT, 64, 0, a);
  }

  /** 0/1 integer of a boolean. */
  Expr b2i(Expr b) {
    return ite(b, i(1), i(0));
  }
}
