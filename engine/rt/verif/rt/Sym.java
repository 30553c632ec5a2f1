package verif.rt;

import java.util.ArrayList;
import java.util.HashMap;
import java.util.LinkedHashSet;
import java.util.List;
import java.util.Map;
import java.util.Set;

/**
 * Symbolic inputs and assertions. In the engine every method here is an intrinsic (inputs become solver
 * variables, check becomes a query); this Java body is what a native replay of a counterexample executes.
 */
public final class Sym {
  static final Map<String, Long> values = new HashMap<>();
  static final Set<String> failed = new LinkedHashSet<>();
  static final List<String> trace = new ArrayList<>();
  static boolean assumeViolated;

  private Sym() {
  }

  /** Engine only: true while executed symbolically. */
  public static boolean symbolic() {
    return false;
  }

  public static boolean bool(String label) {
    return value(label, 0) != 0;
  }

  /** Any value in [lo, hi]. */
  public static int range(String label, int lo, int hi) {
    return (int) value(label, lo);
  }

  /** Any value in [0, n). */
  public static int pick(String label, int n) {
    return (int) value(label, 0);
  }

  /** Any value in [0, n), one case for each: paths of different cases are kept apart. */
  public static int split(String label, int n) {
    return (int) value(label, 0);
  }

  /** Paths that reach this with different labels are kept apart from here on (a case split by history). */
  public static void keep(String label) {
  }

  /** Any int. */
  public static int integer(String label) {
    return (int) value(label, 0);
  }

  /** Any string of at most max UTF-16 code units; always a new object. */
  public static String string(String label, int max) {
    int n = (int) value(label + ".len", 0);
    char[] c = new char[n];
    for (int i = 0; i < n; i++) {
      c[i] = (char) value(label + ".c" + i, 0);
    }
    return new String(c);
  }

  private static long value(String label, long dflt) {
    Long v = values.get(label);
    long r = v == null ? dflt : v;
    trace.add("input " + label + " = " + r);
    return r;
  }

  /** The property's assertion. */
  public static void check(String label, boolean cond) {
    if (!cond) {
      trace.add("CHECK FAILED " + label);
      failed.add(label);
    }
  }

  public static void assume(boolean cond) {
    if (!cond) {
      assumeViolated = true;
      throw new AssumeViolated();
    }
  }

  /** Reachability witness: must be reachable with cond true. */
  public static void cover(String label, boolean cond) {
    if (cond) {
      trace.add("cover " + label);
    }
  }

  /** Observation for comparing a native run with a concrete engine run. */
  public static void obs(String label, int v) {
    trace.add("obs " + label + " = " + v);
  }

  public static final class AssumeViolated extends Error {
  }
}
