package symvm;

import java.io.BufferedReader;
import java.io.BufferedWriter;
import java.io.IOException;
import java.io.InputStreamReader;
import java.io.OutputStreamWriter;
import java.nio.charset.StandardCharsets;
import java.util.ArrayDeque;
import java.util.ArrayList;
import java.util.BitSet;
import java.util.HashMap;
import java.util.List;

/** One query to cvc5, as SMT-LIB over a pipe. */
final class Cvc5 {
  private Cvc5() {
  }

  private static String sort(int w) {
    return w == 0 ? "Bool" : "(_ BitVec " + w + ")";
  }

  private static String ref(Expr e) {
    if (e.op == Expr.CONST) {
      return e.w == 0 ? e.k == 1 ? "true" : "false" : w(e.w, e.k);
    }
    return (e.op == Expr.VAR ? "v" + e.k : "n" + e.id);
  }

  private static String w(int w, long k) {
    return w == 32 ? String.format("#x%08x", (int) k) : String.format("#x%016x", k);
  }

  private static String op(Expr e) {
    switch (e.op) {
      case Expr.NOT:
        return "not";
      case Expr.AND:
        return "and";
      case Expr.OR:
        return "or";
      case Expr.ITE:
        return "ite";
      case Expr.EQ:
        return "=";
      case Expr.SLT:
        return "bvslt";
      case Expr.ULT:
        return "bvult";
      case Expr.ADD:
        return "bvadd";
      case Expr.SUB:
        return "bvsub";
      case Expr.MUL:
        return "bvmul";
      case Expr.SDIV:
        return "bvsdiv";
      case Expr.SREM:
        return "bvsrem";
      case Expr.BAND:
        return "bvand";
      case Expr.BOR:
        return "bvor";
      case Expr.BXOR:
        return "bvxor";
      case Expr.SHL:
        return "bvshl";
      case Expr.LSHR:
        return "bvlshr";
      case Expr.ASHR:
        return "bvashr";
      case Expr.LO32:
        return "(_ extract 31 0)";
      case Expr.SEXT:
        return "(_ sign_extend 32)";
      default:
        throw new IllegalStateException("op " + e.op);
    }
  }

  /** SMT-LIB text of the conjunction, without check-sat; collects the variables. */
  static String text(List<Expr> axioms, List<Expr> conj, List<Expr> vars) {
    StringBuilder sb = new StringBuilder("(set-logic QF_BV)\n");
    BitSet done = new BitSet();
    List<Expr> roots = new ArrayList<>(axioms);
    roots.addAll(conj);
    ArrayDeque<Expr> st = new ArrayDeque<>();
    for (Expr r : roots) {
      st.push(r);
      while (!st.isEmpty()) {
        Expr e = st.peek();
        if (e.op == Expr.CONST || done.get(e.id)) {
          st.pop();
          continue;
        }
        if (e.op == Expr.VAR) {
          sb.append("(declare-const v").append(e.k).append(' ').append(sort(e.w)).append(")\n");
          vars.add(e);
          done.set(e.id);
          st.pop();
          continue;
        }
        boolean ready = true;
        for (Expr k : e.kids) {
          if (k.op != Expr.CONST && !done.get(k.id)) {
            st.push(k);
            ready = false;
          }
        }
        if (!ready) {
          continue;
        }
        sb.append("(define-fun n").append(e.id).append(" () ").append(sort(e.w)).append(" (").append(op(e));
        for (Expr k : e.kids) {
          sb.append(' ').append(ref(k));
        }
        sb.append("))\n");
        done.set(e.id);
        st.pop();
      }
      sb.append("(assert ").append(ref(r)).append(")\n");
    }
    return sb.toString();
  }

  private static final String[][] CONFIGS = {{"--bitblast=eager", "--bv-sat-solver=cadical"},
      {"--decision=justification"}};
  private static final java.util.concurrent.ExecutorService POOL =
      java.util.concurrent.Executors.newCachedThreadPool(r -> {
        Thread t = new Thread(r);
        t.setDaemon(true);
        return t;
      });

  /** TRUE satisfiable (fills the model), FALSE unsatisfiable, null unknown. Runs two configurations (CaDiCaL on the
   * bit-blasted query, and structure-guided search) and takes the first answer. */
  @SuppressWarnings("unchecked")
  static Boolean check(X x, List<Expr> axioms, List<Expr> conj, HashMap<Integer, Long> model, int timeoutMs) {
    List<Expr> vars = new ArrayList<>();
    String t = text(axioms, conj, vars);
    Process[] ps = new Process[CONFIGS.length];
    java.util.concurrent.CompletionService<Object[]> cs = new java.util.concurrent.ExecutorCompletionService<>(POOL);
    try {
      for (int i = 0; i < ps.length; i++) {
        List<String> cmd = new ArrayList<>(List.of("cvc5", "--produce-models", "--tlimit=" + timeoutMs,
            "--lang=smt2"));
        cmd.addAll(List.of(CONFIGS[i]));
        Process p = new ProcessBuilder(cmd).redirectErrorStream(true).start();
        ps[i] = p;
        cs.submit(() -> one(p, t, vars));
      }
      for (int i = 0; i < ps.length; i++) {
        Object[] r = cs.take().get();
        if (r[0] != null) {
          model.putAll((HashMap<Integer, Long>) r[1]);
          return (Boolean) r[0];
        }
      }
      return null;
    } catch (IOException | InterruptedException | java.util.concurrent.ExecutionException e) {
      return null;
    } finally {
      for (Process p : ps) {
        if (p != null) {
          p.destroyForcibly();
        }
      }
    }
  }

  private static Object[] one(Process p, String t, List<Expr> vars) {
    HashMap<Integer, Long> model = new HashMap<>();
    try (BufferedWriter w = new BufferedWriter(new OutputStreamWriter(p.getOutputStream(),
        StandardCharsets.US_ASCII)); BufferedReader r = new BufferedReader(new InputStreamReader(p.getInputStream(),
        StandardCharsets.US_ASCII))) {
      w.write(t);
      w.write("(check-sat)\n");
      w.flush();
      String a = r.readLine();
      if ("unsat".equals(a)) {
        return new Object[] {false, model};
      }
      if (!"sat".equals(a)) {
        return new Object[] {null, null};
      }
      if (!vars.isEmpty()) {
        w.write("(get-value (");
        for (Expr v : vars) {
          w.write(" v" + v.k);
        }
        w.write("))\n(exit)\n");
        w.flush();
        StringBuilder sb = new StringBuilder();
        String l;
        while ((l = r.readLine()) != null) {
          sb.append(l).append(' ');
        }
        java.util.regex.Matcher m = java.util.regex.Pattern.compile("\\(v(\\d+) (true|false|#b[01]+|#x[0-9a-f]+)\\)")
            .matcher(sb);
        HashMap<Integer, Integer> width = new HashMap<>();
        for (Expr v : vars) {
          width.put((int) v.k, v.w);
        }
        while (m.find()) {
          String val = m.group(2);
          int k = Integer.parseInt(m.group(1));
          long q = val.equals("true") ? 1 : val.equals("false") ? 0 : val.startsWith("#b")
              ? Long.parseUnsignedLong(val.substring(2), 2) : Long.parseUnsignedLong(val.substring(2), 16);
          model.put(k, width.get(k) == 32 ? (int) q : q);
        }
        if (model.size() != vars.size()) {
          return new Object[] {null, null};
        }
      }
      return new Object[] {true, model};
    } catch (IOException e) {
      return new Object[] {null, null};
    }
  }
}
