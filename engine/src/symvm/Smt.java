package symvm;

import com.microsoft.z3.BitVecExpr;
import com.microsoft.z3.BitVecSort;
import com.microsoft.z3.BoolExpr;
import com.microsoft.z3.Context;
import com.microsoft.z3.FuncDecl;
import com.microsoft.z3.Params;
import com.microsoft.z3.Solver;
import com.microsoft.z3.Status;
import java.util.ArrayList;
import java.util.HashMap;
import java.util.List;

/** Z3 back end: every conjunct gets a proxy literal; a query is a check under assumptions. When Z3 gives up three
 * times, the remaining queries go to cvc5, which is far better on the schedule formulas. */
final class Smt {
  private static final boolean SLOW = System.getProperty("symvm.slow") != null;
  private final X x;
  private final Context ctx;
  private final Solver solver;
  private final List<com.microsoft.z3.Expr<?>> memo = new ArrayList<>();
  private final HashMap<Integer, BoolExpr> proxies = new HashMap<>();
  private final List<Expr> usedVars = new ArrayList<>();
  private final List<com.microsoft.z3.Expr<?>> usedTerms = new ArrayList<>();
  private final List<Expr> axioms = new ArrayList<>();
  int queries, sat, unsat, cvcQueries;
  private int hard;
  long nanos;
  long maxNanos;
  final int timeoutMs;
  /** When set, every n-th query is recorded as SMT-LIB for a cross-check with another solver. */
  int sampleEvery = 0;
  final List<String> samples = new ArrayList<>();
  final List<String> sampleAnswers = new ArrayList<>();

  Smt(X x, int timeoutMs) {
    this.x = x;
    this.timeoutMs = timeoutMs;
    ctx = new Context();
    solver = ctx.mkSolver(System.getProperty("symvm.logic", "ALL"));
    Params p = ctx.mkParams();
    p.add("timeout", 1500);
    p.add("random_seed", 1);
    solver.setParameters(p);
  }

  void axiom(Expr e) {
    axioms.add(e);
    solver.add((BoolExpr) tr(e));
  }

  private com.microsoft.z3.Expr<?> tr(Expr e) {
    while (memo.size() <= e.id) {
      memo.add(null);
    }
    com.microsoft.z3.Expr<?> r = memo.get(e.id);
    if (r == null) {
      r = build(e);
      while (memo.size() <= e.id) {
        memo.add(null);
      }
      memo.set(e.id, r);
    }
    return r;
  }

  @SuppressWarnings("unchecked")
  private com.microsoft.z3.Expr<BitVecSort> bv(Expr e) {
    return (com.microsoft.z3.Expr<BitVecSort>) tr(e);
  }

  private BoolExpr bo(Expr e) {
    return (BoolExpr) tr(e);
  }

  private com.microsoft.z3.Expr<?> build(Expr e) {
    switch (e.op) {
      case Expr.CONST:
        return e.w == 0 ? ctx.mkBool(e.k == 1) : ctx.mkBV(e.k, e.w);
      case Expr.VAR: {
        com.microsoft.z3.Expr<?> v = e.w == 0 ? ctx.mkBoolConst(e.name + "!" + e.k)
            : ctx.mkBVConst(e.name + "!" + e.k, e.w);
        usedVars.add(e);
        usedTerms.add(v);
        return v;
      }
      case Expr.NOT:
        return ctx.mkNot(bo(e.kids[0]));
      case Expr.AND:
      case Expr.OR: {
        BoolExpr[] ks = new BoolExpr[e.kids.length];
        for (int i = 0; i < ks.length; i++) {
          ks[i] = bo(e.kids[i]);
        }
        return e.op == Expr.AND ? ctx.mkAnd(ks) : ctx.mkOr(ks);
      }
      case Expr.ITE:
        return ctx.mkITE(bo(e.kids[0]), bv(e.kids[1]), bv(e.kids[2]));
      case Expr.EQ:
        return ctx.mkEq(bv(e.kids[0]), bv(e.kids[1]));
      case Expr.SLT:
        return ctx.mkBVSLT(bv(e.kids[0]), bv(e.kids[1]));
      case Expr.ULT:
        return ctx.mkBVULT(bv(e.kids[0]), bv(e.kids[1]));
      case Expr.ADD:
        return ctx.mkBVAdd(bv(e.kids[0]), bv(e.kids[1]));
      case Expr.SUB:
        return ctx.mkBVSub(bv(e.kids[0]), bv(e.kids[1]));
      case Expr.MUL:
        return ctx.mkBVMul(bv(e.kids[0]), bv(e.kids[1]));
      case Expr.SDIV:
        return ctx.mkBVSDiv(bv(e.kids[0]), bv(e.kids[1]));
      case Expr.SREM:
        return ctx.mkBVSRem(bv(e.kids[0]), bv(e.kids[1]));
      case Expr.BAND:
        return ctx.mkBVAND(bv(e.kids[0]), bv(e.kids[1]));
      case Expr.BOR:
        return ctx.mkBVOR(bv(e.kids[0]), bv(e.kids[1]));
      case Expr.BXOR:
        return ctx.mkBVXOR(bv(e.kids[0]), bv(e.kids[1]));
      case Expr.SHL:
        return ctx.mkBVSHL(bv(e.kids[0]), bv(e.kids[1]));
      case Expr.LSHR:
        return ctx.mkBVLSHR(bv(e.kids[0]), bv(e.kids[1]));
      case Expr.ASHR:
        return ctx.mkBVASHR(bv(e.kids[0]), bv(e.kids[1]));
      case Expr.LO32:
        return ctx.mkExtract(31, 0, bv(e.kids[0]));
      case Expr.SEXT:
        return ctx.mkSignExt(32, bv(e.kids[0]));
      default:
        throw new IllegalStateException("op " + e.op);
    }
  }

  private BoolExpr lit(Expr e) {
    if (e.op == Expr.VAR) {
      return bo(e);
    }
    BoolExpr p = proxies.get(e.id);
    if (p == null) {
      p = ctx.mkBoolConst("$p" + e.id);
      solver.add(ctx.mkImplies(p, bo(e)));
      proxies.put(e.id, p);
    }
    return p;
  }

  /** Satisfying model of the conjunction, or null if unsatisfiable. Unknown answers raise Unsupported. */
  Model check(List<Expr> conj) {
    List<BoolExpr> as = new ArrayList<>(conj.size());
    for (Expr e : conj) {
      if (e.isFalse()) {
        return null;
      }
      if (!e.isTrue()) {
        as.add(lit(e));
      }
    }
    long t0 = System.nanoTime();
    Status st = Status.UNKNOWN;
    if (hard < 3) {
      st = solver.check(as.toArray(new BoolExpr[0]));
      if (st == Status.UNKNOWN) {
        hard++;
      }
    }
    HashMap<Integer, Long> cv = null;
    if (st == Status.UNKNOWN) {
      cvcQueries++;
      cv = new HashMap<>();
      Boolean b = Cvc5.check(x, axioms, conj, cv, timeoutMs);
      st = b == null ? Status.UNKNOWN : b ? Status.SATISFIABLE : Status.UNSATISFIABLE;
      if (SLOW) {
        System.err.println("cvc5 " + (System.nanoTime() - t0) / 1000000 + "ms " + st);
      }
    }
    long dt = System.nanoTime() - t0;
    nanos += dt;
    maxNanos = Math.max(maxNanos, dt);
    queries++;
    if (sampleEvery > 0 && queries % sampleEvery == 1 && samples.size() < 12) {
      Solver s2 = ctx.mkSolver();
      for (Expr e : axioms) {
        s2.add(bo(e));
      }
      for (Expr e : conj) {
        s2.add(bo(e));
      }
      samples.add(s2.toString() + "\n(check-sat)\n");
      sampleAnswers.add(st == Status.SATISFIABLE ? "sat" : st == Status.UNSATISFIABLE ? "unsat" : "unknown");
    }
    if (st == Status.UNSATISFIABLE) {
      unsat++;
      return null;
    }
    if (st != Status.SATISFIABLE) {
      throw new Unsupported("solvers gave no answer within " + timeoutMs + " ms");
    }
    sat++;
    if (cv != null) {
      return new Model(x, cv);
    }
    com.microsoft.z3.Model m = solver.getModel();
    HashMap<Integer, Long> vals = new HashMap<>();
    for (int i = 0; i < usedVars.size(); i++) {
      Expr v = usedVars.get(i);
      com.microsoft.z3.Expr<?> t = usedTerms.get(i);
      FuncDecl<?> d = t.getFuncDecl();
      com.microsoft.z3.Expr<?> val = m.getConstInterp(d);
      if (val == null) {
        continue;
      }
      long l;
      if (v.w == 0) {
        l = val.isTrue() ? 1 : 0;
      } else {
        java.math.BigInteger b = new java.math.BigInteger(val.toString());
        l = v.w == 32 ? b.intValue() : b.longValue();
      }
      vals.put((int) v.k, l);
    }
    return new Model(x, vals);
  }

  void close() {
    ctx.close();
  }
}
