package symvm;

import java.util.HashMap;

/** A total assignment (witness); unspecified variables take their default. */
final class Model {
  private final X x;
  private final Model parent;
  private final int ownVar;
  private final long ownVal;
  private final HashMap<Integer, Long> vals;
  private final HashMap<Integer, Long> cache = new HashMap<>();

  Model(X x, HashMap<Integer, Long> vals) {
    this.x = x;
    this.vals = vals;
    this.parent = null;
    this.ownVar = -1;
    this.ownVal = 0;
  }

  private Model(X x, Model parent, int v, long val) {
    this.x = x;
    this.vals = null;
    this.parent = parent;
    this.ownVar = v;
    this.ownVal = val;
  }

  Model with(Expr var, long val) {
    return new Model(x, this, (int) var.k, val);
  }

  long var(int idx) {
    Model m = this;
    while (m.parent != null) {
      if (m.ownVar == idx) {
        return m.ownVal;
      }
      m = m.parent;
    }
    Long v = m.vals.get(idx);
    return v != null ? v : x.varDefault.get(idx);
  }

  boolean isTrue(Expr e) {
    return eval(e) != 0;
  }

  long eval(Expr e) {
    if (e.op == Expr.CONST) {
      return e.k;
    }
    if (e.op == Expr.VAR) {
      return var((int) e.k);
    }
    Model m = this;
    while (m.parent != null && e.maxVar < m.ownVar) {
      m = m.parent;
    }
    Long c = m.cache.get(e.id);
    if (c != null) {
      return c;
    }
    long r;
    switch (e.op) {
      case Expr.NOT:
        r = m.eval(e.kids[0]) != 0 ? 0 : 1;
        break;
      case Expr.AND:
        r = 1;
        for (Expr q : e.kids) {
          if (m.eval(q) == 0) {
            r = 0;
            break;
          }
        }
        break;
      case Expr.OR:
        r = 0;
        for (Expr q : e.kids) {
          if (m.eval(q) != 0) {
            r = 1;
            break;
          }
        }
        break;
      case Expr.ITE:
        r = m.eval(m.eval(e.kids[0]) != 0 ? e.kids[1] : e.kids[2]);
        break;
      case Expr.EQ:
        r = m.eval(e.kids[0]) == m.eval(e.kids[1]) ? 1 : 0;
        break;
      case Expr.LO32:
        r = (int) m.eval(e.kids[0]);
        break;
      case Expr.SEXT:
        r = m.eval(e.kids[0]);
        break;
      case Expr.SDIV:
      case Expr.SREM: {
        long d = m.eval(e.kids[1]);
        r = d == 0 ? 0 : X.fold(e.op, e.kids[0].w, m.eval(e.kids[0]), d);
        break;
      }
      default:
        r = X.fold(e.op, e.kids[0].w, m.eval(e.kids[0]), m.eval(e.kids[1]));
    }
    m.cache.put(e.id, r);
    return r;
  }
}
