package symvm;

import java.util.ArrayList;
import java.util.HashMap;
import java.util.HashSet;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import java.util.PriorityQueue;
import java.util.Set;
import java.util.TreeMap;

/** Symbolic scheduler: merges all states with the same control locations, layer by layer. */
final class Explorer {
  static final class Violation {
    String label;
    Map<String, Long> values = new LinkedHashMap<>();
    String detail = "";
  }

  final Vm vm;
  final X x;
  private final PriorityQueue<State> wl = new PriorityQueue<>(Explorer::order);

  private static int order(State a, State b) {
    int c = a.t().cmp(b.t());
    c = c != 0 ? c : Integer.compare(a.thr.length, b.thr.length);
    if (c == 0) {
      c = a.tag.compareTo(b.tag);
    }
    for (int i = 0; c == 0 && i < a.thr.length; i++) {
      Thr p = a.thr[i], q = b.thr[i];
      if (p != q && i != a.cur) {
        c = p.cmp(q);
        c = c != 0 ? c : Boolean.compare(p.finished, q.finished);
        c = c != 0 ? c : Integer.compare(p.block, q.block);
      }
    }
    return c;
  }

  private final TreeMap<Integer, LinkedHashMap<String, List<State>>> layers = new TreeMap<>();
  final Map<String, Violation> violations = new LinkedHashMap<>();
  final Map<String, Integer> checks = new LinkedHashMap<>(); // label -> evaluations
  final Map<String, Integer> covers = new LinkedHashMap<>();
  final Map<String, Model> coverModels = new LinkedHashMap<>();
  final Map<String, Expr> inputs = new LinkedHashMap<>();
  final Map<String, long[]> domains = new HashMap<>();
  long segments, parkedStates, mergedStates, ends, schedForks;
  int maxStep;
  int stepBound = 400;
  /** Labels of recorded findings; any other violation ends the exploration soon after it is found. */
  java.util.Set<String> known = java.util.Set.of();
  private boolean broken;
  private int lastStep = Integer.MAX_VALUE;
  Map<String, Long> fixed; // concrete run (differential mode)
  final List<String> obs = new ArrayList<>();
  /** Sites that are scheduling points, and those found to need to be. */
  java.util.BitSet active = new java.util.BitSet();
  final java.util.BitSet needed = new java.util.BitSet();
  boolean trace = System.getProperty("symvm.trace") != null;

  Explorer(Vm vm) {
    this.vm = vm;
    this.x = vm.x;
  }

  // ---------------------------------------------------------------- work list

  void add(State s) {
    wl.add(s);
  }

  private State requeued;

  boolean yieldTo(State s) {
    State top = wl.peek();
    if (top == null || order(s, top) < 0) {
      return false;
    }
    wl.add(s);
    requeued = s;
    return true;
  }

  void run(Meth harness) {
    State s = new State();
    s.heap = new Heap(vm, false);
    s.thr = new Thr[] {new Thr(0)};
    s.wit = new ArrayList<>(List.of(new Model(x, new HashMap<>())));
    s.setCounters(new HashMap<>());
    if (trace) {
      System.err.print("round with points\n" + points());
    }
    harness.link();
    s.thr[0].push(new Frame(harness));
    vm.init(harness.owner);
    segment(s);
    while (!layers.isEmpty()) {
      Map.Entry<Integer, LinkedHashMap<String, List<State>>> layer = layers.pollFirstEntry();
      if (layer.getKey() > lastStep) {
        return;
      }
      maxStep = Math.max(maxStep, layer.getKey());
      if (layer.getKey() > stepBound) {
        throw new Unsupported("schedule bound of " + stepBound + " steps exceeded");
      }
      if (trace) {
        System.err.println("layer " + layer.getKey() + " states " + layer.getValue().size() + " queries "
            + vm.smt.queries + " solver ms " + vm.smt.nanos / 1000000 + " exprs " + x.size());
      }
      for (List<State> l : layer.getValue().values()) {
        schedule(mergeAll(l));
      }
      if (broken && lastStep == Integer.MAX_VALUE) {
        lastStep = maxStep + 40;
      }
    }
  }

  boolean broken() {
    return broken;
  }

  private void segment(State s0) {
    segments++;
    wl.clear();
    add(s0);
    while (!wl.isEmpty()) {
      State s = wl.poll();
      List<State> same = null;
      while (!wl.isEmpty() && order(wl.peek(), s) == 0) {
        if (same == null) {
          same = new ArrayList<>();
          same.add(s);
        }
        same.add(wl.poll());
      }
      if (same != null) {
        s = mergeAll(same);
      }
      requeued = null;
      vm.interp(s, this);
      if (requeued == s || s.dead) {
        continue;
      }
      if (s.parked) {
        s.parked = false;
        park(s);
      } else {
        throw new IllegalStateException("state left the interpreter");
      }
    }
  }

  private void park(State s) {
    parkedStates++;
    StringBuilder sb = new StringBuilder(s.tag);
    for (Thr t : s.thr) {
      t.skel(sb);
    }
    if (EXACT && s.unfinished > 1) {
      sb.append(heapKey(s));
    }
    layers.computeIfAbsent(s.step, z -> new LinkedHashMap<>())
        .computeIfAbsent(sb.toString(), z -> new ArrayList<>()).add(s);
  }

  private static final boolean GHOST = !Boolean.getBoolean("symvm.exact");
  private static final boolean EXACT = !Boolean.getBoolean("symvm.merge");

  private static long mix(long h, long v) {
    h = (h ^ v) * 0x9E3779B97F4A7C15L;
    return h ^ h >>> 29;
  }

  private static long id(Expr e) {
    return e == null ? -1 : e.id;
  }


  /** Parked states are merged when everything but the bookkeeping of the harness (verif.h) and the log is equal. */
  private long heapKey(State s) {
    long h = 1;
    for (Thr t : s.thr) {
      h = mix(h, id(t.blockRef));
      h = mix(h, id(t.accRef));
      for (int i = 0; i < t.n; i++) {
        Frame f = t.fr[i];
        for (Expr e : f.loc) {
          h = mix(h, id(e));
        }
        for (int j = 0; j < f.sp; j++) {
          h = mix(h, id(f.st[j]));
        }
      }
    }
    for (int p = 0; p < s.heap.nPages(); p++) {
      Obj[] pg = s.heap.page(p);
      if (pg == null) {
        continue;
      }
      for (int i = 0; i < pg.length; i++) {
        Obj o = pg[i];
        if (o == null || GHOST && ghost(o.cls)) {
          continue;
        }
        h = mix(h, p << Heap.B | i);
        for (Expr e : o.f) {
          h = mix(h, id(e));
        }
        if (o.monCount != null && !(o.monCount.isConst() && o.monCount.k == 0)) {
          h = mix(h, id(o.monCount));
          h = mix(h, id(o.monOwner));
        }
      }
    }
    return h;
  }

  private static boolean ghost(Cls c) {
    return c != null && (c.name.startsWith("verif/h/") || c.name.startsWith("verif/rt/VLog") || c.name.startsWith("[Lverif/h/")
        || c.name.equals("verif/rt/Logs"));
  }

  void threadDone(State s) {
    Thr t = s.t();
    t.finished = true;
    s.unfinished--;
    if (t.tid == 0) {
      ends++;
      s.dead = true;
      return;
    }
    s.parked = true;
  }

  void kill(State s) {
    s.dead = true;
  }

  // ---------------------------------------------------------------- conflicts

  private static final class Loc {
    int readers, writers;
    final java.util.BitSet sites = new java.util.BitSet();
    boolean hot;
  }

  private final Map<String, Loc> locs = new HashMap<>();

  void activate(int site) {
    needed.set(site);
  }

  /** Notes an access; a location accessed by two threads, at least one writing, makes all its sites points. */
  void record(State s, Expr ref, String field, int site, boolean write) {
    if (s.solo) {
      return;
    }
    for (long id : vm.leaves(ref)) {
      Obj o = id == 0 ? null : vm.obj(s, (int) id);
      if (id != 0 && o == null) {
        continue;
      }
      long base = id;
      if (o != null && field.isEmpty()) {
        String n = o.cls.name;
        if (!n.startsWith("java/util/") || n.startsWith("java/util/ImmutableCollections")
            || n.startsWith("java/util/Collections$Empty")) {
          continue;
        }
        // iterators, views and entries stand for the collection they belong to
        for (int hop = 0; hop < 3; hop++) {
          Fld up = null;
          for (Fld fl : o.cls.instanceFields) {
            if (fl.name.equals("this$0") || n.contains("$") && fl.desc.startsWith("Ljava/util/")
                && (fl.desc.endsWith("Map;") || fl.desc.endsWith("Queue;"))) {
              up = fl;
            }
          }
          if (up == null || !o.f[up.idx].isConst() || o.f[up.idx].k == 0) {
            break;
          }
          base = o.f[up.idx].k;
          o = vm.obj(s, (int) base);
          n = o.cls.name;
        }
      }
      Loc l = locs.computeIfAbsent(base + "." + field, z -> new Loc());
      int bit = 1 << s.cur;
      l.sites.set(site);
      l.readers |= bit;
      if (write) {
        l.writers |= bit;
      }
      if (!l.hot && l.writers != 0 && Integer.bitCount(l.readers) > 1) {
        l.hot = true;
      }
      if (l.hot) {
        needed.or(l.sites);
      }
    }
  }

  String points() {
    StringBuilder sb = new StringBuilder();
    for (int i = active.nextSetBit(0); i >= 0; i = active.nextSetBit(i + 1)) {
      sb.append("  ").append(i).append(' ').append(Instrumenter.lastSites.get(i)).append('\n');
    }
    return sb.toString();
  }

  boolean stable() {
    java.util.BitSet b = (java.util.BitSet) needed.clone();
    b.andNot(active);
    return b.isEmpty();
  }

  // ---------------------------------------------------------------- scheduling

  Expr enabled(State s, Thr t) {
    if (t.finished) {
      return x.F;
    }
    switch (t.block) {
      case Thr.NONE:
        return x.T;
      case Thr.ZERO:
        return x.eq(vm.getF(s, t.blockRef, 0), x.i(0));
      case Thr.NONZERO:
        return x.not(x.eq(vm.getF(s, t.blockRef, 0), x.i(0)));
      case Thr.ZERO_I:
        return x.or(x.eq(vm.getF(s, t.blockRef, 0), x.i(0)), interrupted(s, t));
      case Thr.NONZERO_I:
        return x.or(x.not(x.eq(vm.getF(s, t.blockRef, 0), x.i(0))), interrupted(s, t));
      case Thr.LOCK: {
        List<Expr> os = new ArrayList<>();
        for (long id : vm.leaves(t.blockRef)) {
          if (id != 0 && vm.obj(s, (int) id) != null) {
            Obj o = vm.obj(s, (int) id);
            os.add(x.and(x.eq(t.blockRef, x.i(id)), lockFree(o, t.tid)));
          }
        }
        return x.or(os);
      }
      case Thr.QUIESCENT: {
        List<Expr> os = new ArrayList<>();
        for (Thr u : s.thr) {
          if (u != t && !u.finished && u.block != Thr.QUIESCENT) {
            os.add(x.not(enabled(s, u)));
          }
        }
        return x.and(os);
      }
      case Thr.JOIN:
        return x.bool(s.thr[(int) t.blockRef.k].finished);
      default:
        throw new IllegalStateException();
    }
  }

  /** Report accesses by two threads that are both about to happen; volatile fields and collections do not count. */
  private void races(State s) {
    for (Thr t : s.thr) {
      for (Thr u : s.thr) {
        if (t.tid >= u.tid || t.finished || u.finished || t.accLoc == null || u.accLoc == null
            || !t.accLoc.equals(u.accLoc) || !(t.accWrite || u.accWrite)
            || t.accLoc.equals("atomic") && !(t.accPlain || u.accPlain)
            || t.accLoc.endsWith("#v") || t.accLoc.endsWith("#w")) {
          continue;
        }
        String f = t.accLoc.substring(t.accLoc.lastIndexOf('/') + 1).replace("#s", "");
        String label = t.accLoc.equals("atomic") ? "no atomic is accessed as if it were a plain field"
            : "no two threads access " + f + " at the same time";
        Expr same = x.eq(t.accRef, u.accRef);
        checks.merge(label, 1, Integer::sum);
        raceQueries++;
        Model m = vm.witness(s, same);
        if (m != null) {
          violation(label, m, where(s));
        }
      }
    }
  }

  boolean races;
  long raceQueries;

  private Expr interrupted(State s, Thr t) {
    if (t.threadObj == null) {
      return x.F; // nobody holds a reference to it
    }
    Cls c = vm.cls("java/lang/Thread");
    return x.not(x.eq(vm.getF(s, t.threadObj, vm.findField(c, "interrupted").idx), x.i(0)));
  }

  Expr lockFree(Obj o, int tid) {
    if (o.monCount == null) {
      return x.T;
    }
    return x.or(x.eq(o.monCount, x.i(0)), x.eq(o.monOwner, x.i(tid)));
  }

  private void schedule(State s) {
    if (System.nanoTime() > Math.min(vm.deadline, Vm.common)) {
      throw new Unsupported("time budget exhausted");
    }
    int k = s.step;
    List<Thr> cand = new ArrayList<>();
    List<Expr> en = new ArrayList<>();
    List<Expr> none = new ArrayList<>();
    for (Thr t : s.thr) {
      if (t.finished) {
        continue;
      }
      Expr e = enabled(s, t);
      int kn = e.isConst() ? 0 : vm.knownDeep(s, e);
      if (kn == 1) {
        e = x.T;
      } else if (kn == -1) {
        e = x.F;
      }
      none.add(x.not(e));
      if (!e.isFalse()) {
        cand.add(t);
        en.add(e);
      }
    }
    if (races) {
      races(s);
    }
    // quiescence depends on the others, so list it last: its condition excludes theirs
    Expr dead = x.and(none);
    boolean quiescent = false;
    for (Thr t : cand) {
      quiescent |= t.block == Thr.QUIESCENT; // enabled whenever nothing else is
    }
    if (!quiescent && !dead.isFalse()) {
      Model m = vm.witness(s, dead);
      if (m != null) {
        violation("deadlock", m, "no thread can run: " + where(s));
      }
    }
    if (cand.size() == 1 && en.get(0).isTrue()) {
      State c = child(s, cand.get(0).tid);
      c.step = k + 1;
      resume(c);
      return;
    }
    Expr var = x.var("s" + k, 32, 0);
    for (int i = 0; i < cand.size(); i++) {
      Thr t = cand.get(i);
      List<Model> w = new ArrayList<>();
      for (Model m : s.wit) {
        if (m.isTrue(en.get(i))) {
          w.add(m.with(var, t.tid));
        }
      }
      if (w.isEmpty()) {
        Model m = vm.query(s, en.get(i));
        if (m == null) {
          continue;
        }
        w.add(m.with(var, t.tid));
      }
      schedForks++;
      State c = child(s, t.tid);
      c.wit = w;
      vm.assume(c, x.eq(var, x.i(t.tid)), false);
      vm.assume(c, en.get(i), false);
      c.step = k + 1;
      resume(c);
    }
  }

  private String where(State s) {
    StringBuilder sb = new StringBuilder();
    for (Thr t : s.thr) {
      sb.append("thread ").append(t.tid).append(t.finished ? " finished" : " blocked(" + t.block + ")");
      if (t.n > 0) {
        sb.append(" in ").append(t.top().m.sig());
      }
      sb.append("; ");
    }
    return sb.toString();
  }

  private State child(State s, int tid) {
    State c = s.fork();
    c.thr[s.cur] = s.thr[s.cur];
    c.cur = tid;
    c.thr[tid] = s.thr[tid].copy();
    return c;
  }

  private void resume(State c) {
    Thr t = c.t();
    if (t.block == Thr.LOCK) {
      acquire(c, t.blockRef, t.tid);
    }
    c.solo = t.block == Thr.QUIESCENT;
    t.block = Thr.NONE;
    t.blockRef = null;
    t.accRef = null;
    t.accLoc = null;
    segment(c);
  }

  void acquire(State s, Expr ref, int tid) {
    for (long id : vm.leaves(ref)) {
      if (id == 0 || vm.obj(s, (int) id) == null) {
        continue;
      }
      Expr g = x.eq(ref, x.i(id));
      Obj o = s.heap.mut((int) id);
      Expr cnt = o.monCount == null ? x.i(0) : o.monCount;
      Expr own = o.monOwner == null ? x.i(-1) : o.monOwner;
      o.monCount = x.ite(g, x.add(cnt, x.i(1)), cnt);
      o.monOwner = x.ite(g, x.i(tid), own);
    }
  }

  Expr holds(State s, Expr ref, int tid) {
    List<Expr> os = new ArrayList<>();
    for (long id : vm.leaves(ref)) {
      Obj o = id == 0 ? null : vm.obj(s, (int) id);
      if (o != null && o.monCount != null) {
        os.add(x.and(x.eq(ref, x.i(id)), x.eq(o.monOwner, x.i(tid)), x.slt(x.i(0), o.monCount)));
      }
    }
    return x.or(os);
  }

  void release(State s, Expr ref) {
    for (long id : vm.leaves(ref)) {
      Obj o0 = id == 0 ? null : vm.obj(s, (int) id);
      if (o0 == null || o0.monCount == null) {
        continue;
      }
      Expr g = x.eq(ref, x.i(id));
      Obj o = s.heap.mut((int) id);
      Expr dec = x.ite(x.slt(x.i(0), o.monCount), x.add(o.monCount, x.i(-1)), o.monCount);
      o.monCount = x.ite(g, dec, o.monCount);
    }
  }

  // ---------------------------------------------------------------- assertions

  Violation violation(String label, Model m, String detail) {
    Violation v = violations.get(label);
    if (v != null) {
      return v;
    }
    v = new Violation();
    v.label = label;
    v.detail = detail;
    for (int i = 0; i < x.vars.size(); i++) {
      v.values.put(x.vars.get(i).name, m.var(i));
    }
    violations.put(label, v);
    if (!broken && !known.contains(label)) {
      broken = true;
      Vm.common = Math.min(Vm.common, System.nanoTime() + 90_000_000_000L);
    }
    return v;
  }

  /** Assertion query; continues under the assumption that it held. */
  void check(State s, String label, Expr cond) {
    checks.merge(label, 1, Integer::sum);
    if (cond.isTrue()) {
      return;
    }
    Expr bad = x.not(cond);
    Model m = vm.witness(s, bad);
    if (m == null) {
      vm.assume(s, cond, true);
      return;
    }
    violation(label, m, vm.at(s));
    constrain(s, cond);
  }

  void constrain(State s, Expr cond) {
    if (cond.isTrue()) {
      return;
    }
    List<Model> w = new ArrayList<>();
    for (Model m : s.wit) {
      if (m.isTrue(cond)) {
        w.add(m);
      }
    }
    if (w.isEmpty()) {
      Model m = vm.witness(s, cond);
      if (m == null) {
        s.dead = true;
        return;
      }
      w.add(m);
    }
    s.wit = w;
    vm.assume(s, cond, false);
  }

  void cover(State s, String label, Expr cond) {
    if (coverModels.containsKey(label)) {
      covers.merge(label, 1, Integer::sum);
      return;
    }
    covers.putIfAbsent(label, 0);
    Model m = vm.witness(s, cond);
    if (m != null) {
      covers.merge(label, 1, Integer::sum);
      coverModels.put(label, m);
    }
  }

  void uncaught(State s, Cls c, String msg) {
    violation("uncaught:" + c.javaName(), s.wit.get(0), "uncaught exception " + c.javaName() + " " + msg
        + " in thread " + s.cur);
    s.dead = true;
  }

  // ---------------------------------------------------------------- merging

  private static Pc lca(Pc a, Pc b) {
    while (a != b) {
      int da = a == null ? 0 : a.depth, db = b == null ? 0 : b.depth;
      if (da >= db) {
        a = a.up;
        if (db > 0 && da == db) {
          b = b.up;
        }
      } else {
        b = b.up;
      }
    }
    return a;
  }

  State mergeAll(List<State> l) {
    while (l.size() > 1) {
      int bi = 0, bj = 1, best = -1;
      if (l.size() <= 24) {
        for (int i = 0; i < l.size(); i++) {
          for (int j = i + 1; j < l.size(); j++) {
            Pc p = lca(l.get(i).pc, l.get(j).pc);
            int d = p == null ? 0 : p.depth;
            if (d > best) {
              best = d;
              bi = i;
              bj = j;
            }
          }
        }
      }
      State b = l.remove(bj);
      State a = l.remove(bi);
      l.add(bi, merge(a, b));
    }
    return l.get(0);
  }

  private static boolean exclusive(Expr p, Expr q) {
    if (p.neg == q || p.op == Expr.NOT && p.kids[0] == q || q.op == Expr.NOT && q.kids[0] == p) {
      return true;
    }
    return p.op == Expr.EQ && q.op == Expr.EQ && p.kids[0] == q.kids[0] && p.kids[1].isConst()
        && q.kids[1].isConst() && p.kids[1] != q.kids[1];
  }

  private static void literals(Pc from, Pc to, List<Expr> out) {
    for (Pc p = from; p != to; p = p.up) {
      if (!p.lemma) {
        out.add(p.e);
      }
    }
  }

  private static List<Expr> flatten(List<Expr> l) {
    List<Expr> r = new ArrayList<>();
    for (Expr e : l) {
      if (e.op == Expr.AND) {
        for (Expr k : e.kids) {
          r.add(k);
        }
      } else {
        r.add(e);
      }
    }
    return r;
  }

  private State merge(State a, State b) {
    mergedStates++;
    Pc p = lca(a.pc, b.pc);
    List<Expr> ra = new ArrayList<>(), rb = new ArrayList<>();
    literals(a.pc, p, ra);
    literals(b.pc, p, rb);
    Expr ga = x.and(ra), gb = x.and(rb);
    Expr g = null;
    List<Expr> fa = flatten(ra), fb = flatten(rb);
    outer:
    for (Expr e : fa) {
      for (Expr q : fb) {
        if (exclusive(e, q)) {
          g = e;
          if (e.op == Expr.EQ && e.kids[0].op == Expr.VAR) {
            break outer;
          }
        }
      }
    }
    if (g == null) {
      g = fa.size() <= fb.size() ? ga : x.not(gb);
    }
    State m = new State();
    m.pc = p;
    Expr or = x.or(ga, gb);
    vm.assume(m, or, false);
    // lemmas known on both sides
    Set<Expr> la = null;
    for (Pc q = a.pc; q != p; q = q.up) {
      if (q.lemma) {
        if (la == null) {
          la = new HashSet<>();
        }
        la.add(q.e);
      }
    }
    if (la != null) {
      for (Pc q = b.pc; q != p; q = q.up) {
        if (q.lemma && la.contains(q.e)) {
          vm.assume(m, q.e, true);
        }
      }
    }
    m.cur = a.cur;
    m.step = a.step;
    m.unfinished = a.unfinished;
    m.solo = a.solo && b.solo;
    m.tag = a.tag;
    m.wit = new ArrayList<>();
    for (int i = 0; i < Vm.MAXW && m.wit.size() < Vm.MAXW; i++) {
      if (i < a.wit.size()) {
        m.wit.add(a.wit.get(i));
      }
      if (i < b.wit.size() && !m.wit.contains(b.wit.get(i))) {
        m.wit.add(b.wit.get(i));
      }
    }
    if (a.counters == b.counters) {
      m.setCounters(new HashMap<>(a.counters));
    } else {
      HashMap<Long, Integer> cs = new HashMap<>(a.counters);
      for (Map.Entry<Long, Integer> e : b.counters.entrySet()) {
        cs.merge(e.getKey(), e.getValue(), Math::max);
      }
      m.setCounters(cs);
    }
    m.thr = new Thr[a.thr.length];
    for (int i = 0; i < m.thr.length; i++) {
      m.thr[i] = mergeThr(g, a.thr[i], b.thr[i]);
    }
    m.heap = mergeHeap(g, a.heap, b.heap);
    return m;
  }

  private Expr mv(Expr g, Expr a, Expr b) {
    if (a == b) {
      return a;
    }
    if (a == null || b == null || a.w != b.w || a.w > 64) {
      return null; // dead slot
    }
    return x.ite(g, a, b);
  }

  private Thr mergeThr(Expr g, Thr a, Thr b) {
    if (a == b) {
      return a;
    }
    Thr t = new Thr(a.tid);
    t.finished = a.finished;
    t.block = a.block;
    t.accLoc = a.accLoc;
    t.accWrite = a.accWrite;
    t.accPlain = a.accPlain;
    t.accRef = a.accRef == null ? null : x.ite(g, a.accRef, b.accRef);
    t.blockRef = a.blockRef == null ? null : x.ite(g, a.blockRef, b.blockRef);
    t.threadObj = a.threadObj == null ? b.threadObj : b.threadObj == null ? a.threadObj
        : x.ite(g, a.threadObj, b.threadObj);
    if (a.n != b.n) {
      throw new IllegalStateException("merge of different stacks");
    }
    for (int i = 0; i < a.n; i++) {
      Frame p = a.fr[i], q = b.fr[i];
      if (p.m != q.m || p.pc != q.pc || p.sp != q.sp) {
        throw new IllegalStateException("merge of different frames");
      }
      Frame f = p.copy();
      for (int j = 0; j < f.loc.length; j++) {
        f.loc[j] = mv(g, p.loc[j], q.loc[j]);
      }
      for (int j = 0; j < f.sp; j++) {
        f.st[j] = mv(g, p.st[j], q.st[j]);
        if (f.st[j] == null) {
          throw new Unsupported("operand merge");
        }
      }
      for (int j = 0; j < f.iter.length; j++) {
        f.iter[j] = Math.max(p.iter[j], q.iter[j]);
      }
      t.push(f);
    }
    return t;
  }

  private Heap mergeHeap(Expr g, Heap a, Heap b) {
    Heap h = a.fork();
    int n = Math.max(a.nPages(), b.nPages());
    for (int p = 0; p < n; p++) {
      Obj[] pa = a.page(p), pb = b.page(p);
      if (pa == pb || pb == null) {
        if (pa != pb) {
          mergeBase(g, h, pa, p, true);
        }
        continue;
      }
      for (int i = 0; i < Heap.N; i++) {
        Obj ob = pb[i];
        Obj oa = pa == null ? null : pa[i];
        if (oa == ob) {
          continue;
        }
        int id = p << Heap.B | i;
        Obj base = vm.baseGet(id);
        if (oa == null) {
          oa = base;
        }
        if (ob == null) {
          ob = base;
        }
        if (oa == null) {
          h.put(id, ob.copy(null));
        } else if (ob != null && oa != ob) {
          h.put(id, mergeObj(g, oa, ob));
        }
      }
    }
    return h;
  }

  /** Objects only one side has written: merge with the base version when there is one. */
  private void mergeBase(Expr g, Heap h, Obj[] pa, int p, boolean left) {
    for (int i = 0; i < Heap.N; i++) {
      Obj oa = pa[i];
      if (oa == null) {
        continue;
      }
      int id = p << Heap.B | i;
      Obj base = vm.baseGet(id);
      if (base != null && base != oa) {
        h.put(id, mergeObj(g, oa, base));
      }
    }
  }

  private Obj mergeObj(Expr g, Obj a, Obj b) {
    if (a.cls != b.cls || a.f.length != b.f.length) {
      throw new IllegalStateException("merge of objects of different shape " + a.cls + " " + b.cls);
    }
    Expr[] f = new Expr[a.f.length];
    for (int i = 0; i < f.length; i++) {
      Expr p = a.f[i], q = b.f[i];
      if (p != q) {
        if (p.w > 64) {
          throw new Unsupported("symbolic floating point field");
        }
        f[i] = x.ite(g, p, q);
      } else {
        f[i] = p;
      }
    }
    Obj o = new Obj(a.cls, f);
    if (a.payload == b.payload || a.payload != null && a.payload.equals(b.payload)) {
      o.payload = a.payload;
    } else {
      o.payload = SymStr.merge(vm, g, a.payload, b.payload);
    }
    if (a.monCount == b.monCount && a.monOwner == b.monOwner) {
      o.monCount = a.monCount;
      o.monOwner = a.monOwner;
    } else {
      Expr ca = a.monCount == null ? x.i(0) : a.monCount, cb = b.monCount == null ? x.i(0) : b.monCount;
      Expr oa = a.monOwner == null ? x.i(-1) : a.monOwner, ob = b.monOwner == null ? x.i(-1) : b.monOwner;
      o.monCount = x.ite(g, ca, cb);
      o.monOwner = x.ite(g, oa, ob);
    }
    return o;
  }
}
