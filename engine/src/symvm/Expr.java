package symvm;

/** Hash-consed expression node. Width 0 = boolean, 32/64 = bit-vector (also references: 32-bit object ids),
 * 132/164 = concrete float/double (raw bits). */
final class Expr {
  static final int CONST = 0, VAR = 1, NOT = 2, AND = 3, OR = 4, ITE = 5, EQ = 6, SLT = 7, ULT = 8,
      ADD = 9, SUB = 10, MUL = 11, SDIV = 12, SREM = 13, BAND = 14, BOR = 15, BXOR = 16, SHL = 17,
      LSHR = 18, ASHR = 19, LO32 = 20, SEXT = 21;
  static final String[] NAMES = {"const", "var", "not", "and", "or", "ite", "=", "slt", "ult", "add", "sub",
      "mul", "sdiv", "srem", "band", "bor", "bxor", "shl", "lshr", "ashr", "lo32", "sext"};
  static final int F32 = 132, F64 = 164;
  static final long[] NO_LEAVES = new long[0];

  final int op;
  final int w;
  final long k;
  final Expr[] kids;
  final int id;
  final int maxVar;
  final String name;
  Expr neg;            // cached negation (booleans)
  private long[] leaves; // cached constant leaves if this is an ITE tree over constants

  Expr(int op, int w, long k, Expr[] kids, int id, String name) {
    this.op = op;
    this.w = w;
    this.k = k;
    this.kids = kids;
    this.id = id;
    this.name = name;
    int mv = op == VAR ? (int) k : -1;
    for (Expr e : kids) {
      mv = Math.max(mv, e.maxVar);
    }
    this.maxVar = mv;
  }

  boolean isConst() {
    return op == CONST;
  }

  boolean isTrue() {
    return op == CONST && w == 0 && k == 1;
  }

  boolean isFalse() {
    return op == CONST && w == 0 && k == 0;
  }

  static final int MAX_LEAVES = 64;

  /** Sorted distinct constant leaves if the expression is a tree of ITEs over constants, else null. */
  long[] leaves() {
    if (leaves == null) {
      if (op == CONST) {
        leaves = new long[] {k};
      } else if (op == ITE && w != 0) {
        long[] a = kids[1].leaves();
        long[] b = kids[2].leaves();
        if (a == null || b == null) {
          leaves = NO_LEAVES;
        } else {
          long[] r = new long[a.length + b.length];
          int i = 0, j = 0, n = 0;
          while (i < a.length || j < b.length) {
            long v;
            if (j >= b.length || i < a.length && a[i] <= b[j]) {
              v = a[i];
              if (j < b.length && b[j] == v) {
                j++;
              }
              i++;
            } else {
              v = b[j++];
            }
            r[n++] = v;
          }
          leaves = n > MAX_LEAVES ? NO_LEAVES : java.util.Arrays.copyOf(r, n);
        }
      } else {
        leaves = NO_LEAVES;
      }
    }
    return leaves == NO_LEAVES ? null : leaves;
  }

  @Override
  public String toString() {
    StringBuilder sb = new StringBuilder();
    str(sb, 6);
    return sb.toString();
  }

  private void str(StringBuilder sb, int d) {
    if (op == CONST) {
      sb.append(w == 0 ? k == 1 ? "true" : "false" : Long.toString(k));
    } else if (op == VAR) {
      sb.append(name);
    } else if (d == 0) {
      sb.append("#").append(id);
    } else {
      sb.append('(').append(NAMES[op]);
      for (Expr e : kids) {
        sb.append(' ');
        e.str(sb, d - 1);
      }
      sb.append(')');
    }
  }
}
