package symvm;

import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashMap;
import java.util.HashSet;
import java.util.LinkedHashMap;
import java.util.LinkedHashSet;
import java.util.List;
import java.util.Map;
import java.util.Set;
import org.objectweb.asm.Opcodes;
import org.objectweb.asm.Type;
import org.objectweb.asm.tree.ClassNode;
import org.objectweb.asm.tree.FieldInsnNode;
import org.objectweb.asm.tree.FieldNode;
import org.objectweb.asm.tree.MethodInsnNode;
import org.objectweb.asm.tree.MethodNode;

/** Symbolic interpreter for JVM bytecode. */
final class Vm implements Opcodes {
  final X x = new X();
  final Smt smt;
  final Loader loader;
  final Intrinsics intrinsics;
  Explorer ex;
  private final Map<String, Cls> classes = new HashMap<>();
  private final Map<Integer, Meth> methByNum = new HashMap<>();
  private int methNum = 0;
  private int siteNum = 0;
  private Obj[] base = new Obj[1024];
  private int nextId = 1;
  private final HashMap<Object, Integer> idByKey = new HashMap<>();
  private final HashMap<String, Integer> strIds = new HashMap<>();
  long instructions, branches, forks, merges;
  final Set<Meth> executedRepo = new LinkedHashSet<>();
  long deadline = Long.MAX_VALUE;
  /** Moved up when a violation has been found. */
  static volatile long common = Long.MAX_VALUE;
  final String repoPrefix;
  private final Heap baseHeap;

  Vm(Loader loader, int solverTimeoutMs, String repoPrefix) {
    this.loader = loader;
    this.smt = new Smt(x, solverTimeoutMs);
    this.repoPrefix = repoPrefix;
    this.baseHeap = new Heap(this, true);
    this.intrinsics = new Intrinsics(this);
  }

  // ------------------------------------------------------------------ classes

  Cls cls(String name) {
    Cls c = classes.get(name);
    if (c != null) {
      return c;
    }
    if (name.startsWith("[")) {
      c = new Cls(name, null, name.substring(1));
      c.sup = cls("java/lang/Object");
      c.ifaces.add(cls("java/lang/Cloneable"));
      c.ifaces.add(cls("java/io/Serializable"));
      c.initState = 2;
      classes.put(name, c);
      return c;
    }
    ClassNode n = loader.get(name);
    if (n == null) {
      throw new Unsupported("class not found: " + name);
    }
    c = new Cls(name, n, null);
    classes.put(name, c);
    c.repo = name.startsWith(repoPrefix);
    if (n.superName != null) {
      c.sup = cls(n.superName);
      c.nInstance = c.sup.nInstance;
      c.instanceFields.addAll(c.sup.instanceFields);
    }
    for (String i : n.interfaces) {
      c.ifaces.add(cls(i));
    }
    List<FieldNode> statics = new ArrayList<>();
    for (FieldNode f : n.fields) {
      boolean st = (f.access & ACC_STATIC) != 0;
      Fld fl = new Fld(c, f.name, f.desc, st, (f.access & ACC_FINAL) != 0, st ? c.nStatic++ : c.nInstance++);
      c.fields.put(f.name, fl);
      if (st) {
        statics.add(f);
      } else {
        c.instanceFields.add(fl);
      }
    }
    Expr[] sv = new Expr[c.nStatic];
    for (FieldNode f : statics) {
      Fld fl = c.fields.get(f.name);
      sv[fl.idx] = dflt(f.desc);
      if (f.value != null) {
        sv[fl.idx] = ldc(f.value);
        if (f.desc.length() == 1 && "ZBCSI".contains(f.desc)) {
          sv[fl.idx] = x.i(((Integer) f.value));
        }
      }
    }
    c.staticsId = newBaseId();
    basePut(c.staticsId, new Obj(c, sv));
    for (MethodNode m : n.methods) {
      Meth mm = new Meth(c, m, methNum++);
      c.methods.put(m.name + m.desc, mm);
      mm.intrinsic = intrinsics.lookup(mm);
    }
    return c;
  }

  Expr dflt(String desc) {
    switch (desc.charAt(0)) {
      case 'J':
        return x.l(0);
      case 'F':
        return x.fl(0);
      case 'D':
        return x.db(0);
      default:
        return x.i(0);
    }
  }

  Meth findMethod(Cls c, String key) {
    for (Cls k = c; k != null; k = k.sup) {
      Meth m = k.methods.get(key);
      if (m != null) {
        return m;
      }
    }
    Meth best = null;
    for (Cls k = c; k != null; k = k.sup) {
      best = findIface(k, key, best);
    }
    return best;
  }

  private Meth findIface(Cls c, String key, Meth best) {
    for (Cls i : c.ifaces) {
      Meth m = i.methods.get(key);
      if (m != null && !m.isStatic && !m.isPrivate) {
        if (best == null || best.isAbstract && !m.isAbstract
            || !m.isAbstract && isSub(m.owner, best.owner)) {
          best = m;
        }
      }
      best = findIface(i, key, best);
    }
    return best;
  }

  Meth virtual(Cls c, String key) {
    Meth m = c.vcache.get(key);
    if (m == null) {
      Cls k = c.isArray() ? cls("java/lang/Object") : c;
      m = findMethod(k, key);
      if (m == null) {
        throw new Unsupported("no method " + key + " in " + c);
      }
      c.vcache.put(key, m);
    }
    return m;
  }

  Fld findField(Cls c, String name) {
    for (Cls k = c; k != null; k = k.sup) {
      Fld f = k.fields.get(name);
      if (f != null) {
        return f;
      }
      for (Cls i : k.ifaces) {
        Fld g = findField(i, name);
        if (g != null) {
          return g;
        }
      }
    }
    return null;
  }

  boolean isSub(Cls a, Cls b) {
    if (a == b || b.name.equals("java/lang/Object")) {
      return true;
    }
    Boolean r = a.subCache.get(b);
    if (r == null) {
      r = false;
      if (a.isArray() && b.isArray()) {
        String ea = a.elem, eb = b.elem;
        if (ea.equals(eb)) {
          r = true;
        } else if (isRefDesc(ea) && isRefDesc(eb)) {
          r = isSub(clsOfDesc(ea), clsOfDesc(eb));
        }
      } else {
        if (a.sup != null && isSub(a.sup, b)) {
          r = true;
        } else {
          for (Cls i : a.ifaces) {
            if (isSub(i, b)) {
              r = true;
              break;
            }
          }
        }
      }
      a.subCache.put(b, r);
    }
    return r;
  }

  static boolean isRefDesc(String d) {
    return d.charAt(0) == 'L' || d.charAt(0) == '[';
  }

  Cls clsOfDesc(String d) {
    return d.charAt(0) == 'L' ? cls(d.substring(1, d.length() - 1)) : cls(d);
  }

  Cls typeOperand(String t) { // operand of checkcast, anewarray, ...
    return cls(t);
  }

  void init(Cls c) {
    if (c.initState != 0) {
      return;
    }
    c.initState = 1;
    if (c.sup != null) {
      init(c.sup);
    }
    Meth m = c.methods.get("<clinit>()V");
    if (m != null && !intrinsics.skipClinit(c)) {
      State s = new State();
      s.heap = baseHeap;
      s.thr = new Thr[] {new Thr(0)};
      s.wit = new ArrayList<>();
      s.setCounters(baseCounters);
      m.link();
      Frame f = new Frame(m);
      f.boundary = true;
      s.thr[0].push(f);
      s.inits = 1;
      Explorer saved = ex;
      ex = null;
      try {
        interp(s, null);
      } catch (Unsupported u) {
        throw new Unsupported("initialiser of " + c + ": " + u.getMessage(), u);
      } finally {
        ex = saved;
      }
    }
    c.initState = 2;
  }

  private final HashMap<Long, Integer> baseCounters = new HashMap<>();

  // ------------------------------------------------------------------ heap

  Obj baseGet(int id) {
    return id < base.length ? base[id] : null;
  }

  void basePut(int id, Obj o) {
    if (id >= base.length) {
      base = Arrays.copyOf(base, Math.max(id + 1, base.length * 2));
    }
    base[id] = o;
  }

  int newBaseId() {
    return nextId++;
  }

  int idFor(Object key) {
    Integer i = idByKey.get(key);
    if (i == null) {
      i = nextId++;
      idByKey.put(key, i);
    }
    return i;
  }

  int site(Frame f) {
    if (f.m.siteBase == 0) {
      f.m.siteBase = siteNum + 1;
      siteNum += f.m.op.length + 1;
    }
    return f.m.siteBase + f.pc;
  }

  Obj obj(State s, int id) {
    return s.heap.get(id);
  }

  /** Allocates at the current instruction of the frame; extra distinguishes shapes (array length, class). */
  int alloc(State s, Frame f, Obj o, Object extra) {
    int site = site(f);
    boolean inBase = s.heap.base;
    long ck = (inBase ? 1L << 60 : 0) | (long) s.cur << 40 | site;
    int n = s.nextCount(ck);
    int id = idFor(List.of(ck, n, o.cls, extra));
    s.heap.put(id, o);
    return id;
  }

  int allocObj(State s, Frame f, Cls c) {
    Expr[] fs = new Expr[c.nInstance];
    for (int i = 0; i < fs.length; i++) {
      fs[i] = dflt(c.instanceFields.get(i).desc);
    }
    return alloc(s, f, new Obj(c, fs), 0);
  }

  int allocArr(State s, Frame f, String elemDesc, int len, Object extra) {
    Expr[] fs = new Expr[len];
    Arrays.fill(fs, dflt(elemDesc));
    return alloc(s, f, new Obj(cls("[" + elemDesc), fs), List.of(len, extra));
  }

  int str(String v) {
    Integer i = strIds.get(v);
    if (i == null) {
      i = newBaseId();
      strIds.put(v, i);
      Obj o = new Obj(cls("java/lang/String"), new Expr[cls("java/lang/String").nInstance]);
      for (int j = 0; j < o.f.length; j++) {
        o.f[j] = dflt(o.cls.instanceFields.get(j).desc);
      }
      o.payload = v;
      basePut(i, o);
    }
    return i;
  }

  private final Map<String, Integer> classObjs = new LinkedHashMap<>();

  /** Class object for an internal name, array descriptor or one-letter primitive descriptor. */
  int classObj(String nm) {
    Integer i = classObjs.get(nm);
    if (i == null) {
      Cls k = cls("java/lang/Class");
      i = newBaseId();
      classObjs.put(nm, i);
      Obj o = new Obj(k, new Expr[k.nInstance]);
      for (int j = 0; j < o.f.length; j++) {
        o.f[j] = dflt(k.instanceFields.get(j).desc);
      }
      o.payload = nm;
      basePut(i, o);
    }
    return i;
  }

  Expr ldc(Object c) {
    if (c instanceof Integer) {
      return x.i((Integer) c);
    }
    if (c instanceof Long) {
      return x.l((Long) c);
    }
    if (c instanceof Float) {
      return x.fl((Float) c);
    }
    if (c instanceof Double) {
      return x.db((Double) c);
    }
    if (c instanceof String) {
      return x.i(str((String) c));
    }
    if (c instanceof Type) {
      Type t = (Type) c;
      return x.i(classObj(t.getSort() == Type.ARRAY ? t.getDescriptor()
          : t.getSort() == Type.OBJECT ? t.getInternalName() : t.getDescriptor()));
    }
    throw new Unsupported("ldc " + c);
  }

  long[] leaves(Expr ref) {
    long[] l = ref.leaves();
    if (l == null) {
      throw new Unsupported("reference with too many targets");
    }
    return l;
  }

  /** The reference with the alternatives removed that the current path excludes. */
  private Expr restrict(Expr ref, List<Expr> eqs) {
    Set<Long> keep = new HashSet<>();
    for (long id : ref.leaves()) {
      if (eqs.contains(x.eq(ref, x.i(id)))) {
        keep.add(id);
      }
    }
    return keep.isEmpty() ? ref : restrict(ref, keep, new HashMap<>());
  }

  private Expr restrict(Expr e, Set<Long> keep, Map<Expr, Expr> memo) {
    if (e.isConst()) {
      return keep.contains(e.k) ? e : null;
    }
    if (memo.containsKey(e)) {
      return memo.get(e);
    }
    Expr r;
    if (e.op != Expr.ITE) {
      r = e;
    } else {
      Expr a = restrict(e.kids[1], keep, memo), b = restrict(e.kids[2], keep, memo);
      r = a == null ? b : b == null ? a : x.ite(e.kids[0], a, b);
    }
    memo.put(e, r);
    return r;
  }

  // ------------------------------------------------------------------ path conditions

  void assume(State s, Expr c, boolean lemma) {
    if (c.isTrue()) {
      return;
    }
    s.pc = new Pc(s.pc, c, lemma);
  }

  private int known(State s, Expr c) {
    for (Pc p = s.pc; p != null; p = p.up) {
      int k = implied(p.e, c);
      if (k != 0) {
        return k;
      }
    }
    return 0;
  }

  private static int implied(Expr e, Expr c) {
    if (e == c) {
      return 1;
    }
    if (e.neg == c && c != null) {
      return -1;
    }
    if (e.op == Expr.NOT && e.kids[0] == c || c.op == Expr.NOT && c.kids[0] == e) {
      return -1;
    }
    if (e.op == Expr.AND) {
      for (Expr q : e.kids) {
        int k = implied(q, c);
        if (k != 0) {
          return k;
        }
      }
    }
    if (e.op == Expr.EQ && c.op == Expr.EQ && e.kids[0] == c.kids[0] && e.kids[1].isConst()
        && c.kids[1].isConst()) {
      return -1;
    }
    return 0;
  }

  int knownDeep(State s, Expr c) {
    int k = known(s, c);
    if (k != 0) {
      return k;
    }
    if (c.op == Expr.AND) {
      boolean all = true;
      for (Expr q : c.kids) {
        int r = known(s, q);
        if (r == -1) {
          return -1;
        }
        all &= r == 1;
      }
      return all ? 1 : 0;
    }
    if (c.op == Expr.OR) {
      boolean none = true;
      for (Expr q : c.kids) {
        int r = known(s, q);
        if (r == 1) {
          return 1;
        }
        none &= r == -1;
      }
      return none ? -1 : 0;
    }
    return 0;
  }

  static final int MAXW = Integer.getInteger("symvm.maxw", 16);

  Model query(State s, Expr extra) {
    List<Expr> l = s.conj();
    l.add(extra);
    return smt.check(l);
  }

  /** A model of PC and c, or null. */
  Model witness(State s, Expr c) {
    if (c.isFalse()) {
      return null;
    }
    for (Model m : s.wit) {
      if (m.isTrue(c)) {
        return m;
      }
    }
    int k = knownDeep(s, c);
    if (k == -1) {
      return null;
    }
    return query(s, c);
  }

  /** Decides a condition; forks the state when both outcomes are feasible (the fork re-executes the
   * current instruction). Must be called before the instruction has any effect. */
  boolean branch(State s, Expr c) {
    if (c.isConst()) {
      return c.isTrue();
    }
    branches++;
    int k = knownDeep(s, c);
    if (k != 0) {
      return k == 1;
    }
    if (ex == null) {
      throw new Unsupported("symbolic branch in class initialiser");
    }
    List<Model> tw = new ArrayList<>(), fw = new ArrayList<>();
    for (Model m : s.wit) {
      (m.isTrue(c) ? tw : fw).add(m);
    }
    if (tw.isEmpty()) {
      Model m = query(s, c);
      if (m == null) {
        assume(s, x.not(c), true);
        return false;
      }
      tw.add(m);
    }
    if (fw.isEmpty()) {
      Model m = query(s, x.not(c));
      if (m == null) {
        assume(s, c, true);
        return true;
      }
      fw.add(m);
    }
    forks++;
    State t = s.fork();
    t.wit = fw;
    assume(t, x.not(c), false);
    s.wit = tw;
    assume(s, c, false);
    ex.add(t);
    return true;
  }

  // ------------------------------------------------------------------ invocation

  /** Completes an intrinsic call: pops arguments, pushes the result, advances. */
  void ret(Frame f, Meth m, Expr v) {
    f.drop(m.nArgs);
    if (v != null) {
      f.push(v);
    }
    advance(f);
  }

  void advance(Frame f) {
    f.pc++;
    if (f.m.leader[f.pc]) {
      enterBlock(f, f.m.blockOf[f.pc - 1], f.pc);
    }
  }

  void jump(Frame f, int target) {
    int from = f.m.blockOf[f.pc];
    f.pc = target;
    enterBlock(f, from, target);
  }

  private static final int LOOP_LIMIT = 20000;

  private void enterBlock(Frame f, int from, int target) {
    Meth m = f.m;
    if (target >= m.blockOf.length) {
      return;
    }
    int b = m.blockOf[target];
    int c = m.headComp[b];
    if (c >= 0) {
      boolean inside = false;
      for (int q : m.comps[from]) {
        if (q == c) {
          inside = true;
          break;
        }
      }
      if (inside) {
        if (++f.iter[c] > LOOP_LIMIT) {
          throw new Unsupported("unwinding bound exceeded in " + m);
        }
      } else {
        f.iter[c] = 0;
      }
    }
  }

  void invoke(State s, Frame f, Meth m) {
    if (m.redirect != null) {
      m = m.redirect;
    }
    if (m.intrinsic != null) {
      Expr[] args = new Expr[m.nArgs];
      for (int i = 0; i < args.length; i++) {
        args[i] = f.peek(args.length - 1 - i);
      }
      m.intrinsic.call(this, s, f, m, args);
      return;
    }
    if (m.isAbstract) {
      throw new Unsupported("abstract method called: " + m);
    }
    if (m.isNative) {
      throw new Unsupported("native method " + m + at(s));
    }
    call(s, f, m);
  }

  void call(State s, Frame f, Meth m) {
    m.link();
    if (m.owner.repo) {
      executedRepo.add(m);
    }
    Frame g = new Frame(m);
    int li = 0;
    int n = m.nArgs;
    for (int i = 0; i < n; i++) {
      Expr v = f.peek(n - 1 - i);
      g.loc[li++] = v;
      if (wide(v)) {
        li++;
      }
    }
    f.drop(n);
    s.t().push(g);
  }

  static boolean wide(Expr v) {
    return v.w == 64 || v.w == Expr.F64;
  }

  String at(State s) {
    StringBuilder sb = new StringBuilder(" at ");
    Thr t = s.t();
    for (int i = t.n - 1; i >= 0 && i > t.n - 12; i--) {
      Frame f = t.fr[i];
      sb.append(f.m.owner.name).append('.').append(f.m.name).append(':')
          .append(f.pc < f.m.line.length ? f.m.line[f.pc] : -1).append(" < ");
    }
    return sb.toString();
  }

  void throwNew(State s, String cls, String msg) {
    Cls c = cls(cls);
    init(c);
    Frame f = s.t().top();
    int id = allocObj(s, f, c);
    if (msg != null) {
      Fld mf = findField(c, "message");
      if (mf != null) {
        s.heap.mut(id).f[mf.idx] = x.i(str(msg));
      }
    }
    unwind(s, x.i(id), c);
  }

  /** Propagates an exception whose leaves all have class c. */
  void unwind(State s, Expr ref, Cls c) {
    Thr t = s.t();
    while (t.n > 0) {
      Frame f = t.top();
      for (int i = 0; i < f.m.hPc.length; i++) {
        if (f.pc >= f.m.hStart[i] && f.pc < f.m.hEnd[i]
            && (f.m.hType[i] == null || isSub(c, cls(f.m.hType[i])))) {
          f.drop(f.sp);
          f.push(ref);
          jump(f, f.m.hPc[i]);
          return;
        }
      }
      if (f.boundary) {
        throw new Unsupported("exception " + c + " in class initialiser of " + f.m.owner + " "
            + describe(s, ref));
      }
      t.pop();
    }
    if (ex == null) {
      throw new Unsupported("uncaught in initialiser");
    }
    ex.uncaught(s, c, describe(s, ref));
  }

  String describe(State s, Expr ref) {
    if (ref.isConst() && ref.k != 0) {
      Obj o = obj(s, (int) ref.k);
      Fld mf = findField(o.cls, "message");
      if (mf != null && o.f[mf.idx].isConst() && o.f[mf.idx].k != 0) {
        Obj q = obj(s, (int) o.f[mf.idx].k);
        return String.valueOf(q.payload);
      }
    }
    return "";
  }

  // ------------------------------------------------------------------ heap access on guarded references

  Expr getF(State s, Expr ref, int idx) {
    return getF(s, ref, idx, null);
  }

  Expr getF(State s, Expr ref, Fld fl) {
    return getF(s, ref, fl.idx, fl.owner);
  }

  private Expr getF(State s, Expr ref, int idx, Cls owner) {
    if (ref.isConst()) {
      return obj(s, (int) ref.k).f[idx];
    }
    Expr r = null;
    for (long id : leaves(ref)) {
      if (id == 0) {
        continue;
      }
      Obj o = obj(s, (int) id);
      if (o == null || idx >= o.f.length || owner != null && !isSub(o.cls, owner)) {
        continue;
      }
      Expr v = o.f[idx];
      r = r == null ? v : x.ite(x.eq(ref, x.i(id)), v, r);
    }
    if (r == null) {
      throw new Unsupported("read through dead reference");
    }
    return r;
  }

  void putF(State s, Expr ref, Fld fl, Expr v) {
    int idx = fl.idx;
    if (ref.isConst()) {
      s.heap.mut((int) ref.k).f[idx] = v;
      return;
    }
    for (long id : leaves(ref)) {
      if (id == 0) {
        continue;
      }
      Obj o = obj(s, (int) id);
      if (o == null || idx >= o.f.length || !isSub(o.cls, fl.owner)) {
        continue;
      }
      Expr nv = x.ite(x.eq(ref, x.i(id)), v, o.f[idx]);
      if (nv != o.f[idx]) {
        s.heap.mut((int) id).f[idx] = nv;
      }
    }
  }

  Expr isNull(Expr ref) {
    return x.eq(ref, x.i(0));
  }

  /** True when the NPE was thrown (in this state). */
  boolean npe(State s, Expr ref) {
    if (branch(s, isNull(ref))) {
      throwNew(s, "java/lang/NullPointerException", null);
      return true;
    }
    return false;
  }

  Expr instOf(State s, Expr ref, Cls c) {
    List<Expr> os = new ArrayList<>();
    long[] ls = leaves(ref);
    boolean all = true;
    for (long id : ls) {
      if (id == 0) {
        all = false;
        continue;
      }
      Obj o = obj(s, (int) id);
      if (o == null) {
        continue;
      }
      if (isSub(o.cls, c)) {
        os.add(x.eq(ref, x.i(id)));
      } else {
        all = false;
      }
    }
    return all ? x.T : x.or(os);
  }

  /** Index expression alternatives. */
  Expr arrRead(State s, Expr ref, Expr idx) {
    Expr r = null;
    for (long id : leaves(ref)) {
      if (id == 0) {
        continue;
      }
      Obj o = obj(s, (int) id);
      if (o == null) {
        continue;
      }
      Expr v = null;
      long[] il = idx.leaves();
      if (il != null) {
        for (long i : il) {
          if (i >= 0 && i < o.f.length) {
            v = v == null ? o.f[(int) i] : x.ite(x.eq(idx, x.i(i)), o.f[(int) i], v);
          }
        }
      } else {
        for (int i = 0; i < o.f.length; i++) {
          v = v == null ? o.f[i] : x.ite(x.eq(idx, x.i(i)), o.f[i], v);
        }
      }
      if (v != null) {
        r = r == null ? v : x.ite(x.eq(ref, x.i(id)), v, r);
      }
    }
    if (r == null) {
      throw new Unsupported("array read through dead reference");
    }
    return r;
  }

  void arrWrite(State s, Expr ref, Expr idx, Expr v) {
    for (long id : leaves(ref)) {
      if (id == 0) {
        continue;
      }
      Obj o = obj(s, (int) id);
      if (o == null) {
        continue;
      }
      Expr g = x.eq(ref, x.i(id));
      long[] il = idx.leaves();
      int n = il != null ? il.length : o.f.length;
      for (int j = 0; j < n; j++) {
        long i = il != null ? il[j] : j;
        if (i < 0 || i >= o.f.length) {
          continue;
        }
        Expr old = s.heap.get((int) id).f[(int) i];
        Expr nv = x.ite(x.and(g, x.eq(idx, x.i(i))), v, old);
        if (nv != old) {
          s.heap.mut((int) id).f[(int) i] = nv;
        }
      }
    }
  }

  Expr arrLen(State s, Expr ref) {
    Expr r = null;
    for (long id : leaves(ref)) {
      if (id == 0) {
        continue;
      }
      Obj o = obj(s, (int) id);
      if (o == null) {
        continue;
      }
      Expr v = x.i(o.f.length);
      r = r == null ? v : x.ite(x.eq(ref, x.i(id)), v, r);
    }
    return r;
  }

  private boolean bounds(State s, Expr ref, Expr idx) {
    Expr len = arrLen(s, ref);
    Expr ok = x.and(x.not(x.slt(idx, x.i(0))), x.slt(idx, len));
    if (branch(s, ok)) {
      return true;
    }
    throwNew(s, "java/lang/ArrayIndexOutOfBoundsException", null);
    return false;
  }

  // ------------------------------------------------------------------ interpreter

  /** Runs the current thread until the state is parked, finished, dead or requeued. */
  void interp(State s, Explorer e) {
    while (true) {
      Thr t = s.t();
      if (t.n == 0) {
        return;
      }
      Frame f = t.top();
      Meth m = f.m;
      if (e != null && m.leader[f.pc] && e.yieldTo(s)) {
        return;
      }
      if ((++instructions & 0x3fff) == 0 && System.nanoTime() > Math.min(deadline, common)) {
        throw new Unsupported("time budget exhausted" + at(s));
      }
      int pc = f.pc;
      if (m.owner.repo) {
        m.covered[pc] = true;
      }
      int op = m.op[pc];
      switch (op) {
        case NOP:
          advance(f);
          break;
        case ACONST_NULL:
          f.push(x.i(0));
          advance(f);
          break;
        case ICONST_M1:
        case ICONST_0:
        case ICONST_1:
        case ICONST_2:
        case ICONST_3:
        case ICONST_4:
        case ICONST_5:
          f.push(x.i(op - ICONST_0));
          advance(f);
          break;
        case LCONST_0:
        case LCONST_1:
          f.push(x.l(op - LCONST_0));
          advance(f);
          break;
        case FCONST_0:
        case FCONST_1:
        case FCONST_2:
          f.push(x.fl(op - FCONST_0));
          advance(f);
          break;
        case DCONST_0:
        case DCONST_1:
          f.push(x.db(op - DCONST_0));
          advance(f);
          break;
        case BIPUSH:
        case SIPUSH:
          f.push(x.i(m.x[pc]));
          advance(f);
          break;
        case LDC:
          f.push(ldc(m.a[pc]));
          advance(f);
          break;
        case ILOAD:
        case LLOAD:
        case FLOAD:
        case DLOAD:
        case ALOAD: {
          Expr v = f.loc[m.x[pc]];
          if (v == null) {
            throw new Unsupported("dead local read in " + m);
          }
          f.push(v);
          advance(f);
          break;
        }
        case ISTORE:
        case LSTORE:
        case FSTORE:
        case DSTORE:
        case ASTORE:
          f.loc[m.x[pc]] = f.pop();
          advance(f);
          break;
        case IALOAD:
        case LALOAD:
        case FALOAD:
        case DALOAD:
        case AALOAD:
        case BALOAD:
        case CALOAD:
        case SALOAD: {
          Expr idx = f.peek(0), ref = f.peek(1);
          if (npe(s, ref) || !bounds(s, ref, idx)) {
            break;
          }
          Expr v = arrRead(s, ref, idx);
          f.drop(2);
          f.push(v);
          advance(f);
          break;
        }
        case IASTORE:
        case LASTORE:
        case FASTORE:
        case DASTORE:
        case AASTORE:
        case BASTORE:
        case CASTORE:
        case SASTORE: {
          Expr v = f.peek(0), idx = f.peek(1), ref = f.peek(2);
          if (npe(s, ref) || !bounds(s, ref, idx)) {
            break;
          }
          if (op == CASTORE) {
            v = x.bin(Expr.BAND, v, x.i(0xffff));
          } else if (op == BASTORE) {
            v = narrow(v, 24);
          } else if (op == SASTORE) {
            v = narrow(v, 16);
          }
          arrWrite(s, ref, idx, v);
          f.drop(3);
          advance(f);
          break;
        }
        case POP:
          f.drop(1);
          advance(f);
          break;
        case POP2:
          f.drop(wide(f.peek(0)) ? 1 : 2);
          advance(f);
          break;
        case DUP:
          f.push(f.peek(0));
          advance(f);
          break;
        case DUP_X1: {
          Expr a = f.pop(), b = f.pop();
          f.push(a);
          f.push(b);
          f.push(a);
          advance(f);
          break;
        }
        case DUP_X2: {
          Expr a = f.pop(), b = f.pop();
          if (wide(b)) {
            f.push(a);
            f.push(b);
            f.push(a);
          } else {
            Expr c = f.pop();
            f.push(a);
            f.push(c);
            f.push(b);
            f.push(a);
          }
          advance(f);
          break;
        }
        case DUP2: {
          if (wide(f.peek(0))) {
            f.push(f.peek(0));
          } else {
            Expr a = f.peek(0), b = f.peek(1);
            f.push(b);
            f.push(a);
          }
          advance(f);
          break;
        }
        case DUP2_X1: {
          Expr a = f.pop();
          if (wide(a)) {
            Expr b = f.pop();
            f.push(a);
            f.push(b);
            f.push(a);
          } else {
            Expr b = f.pop(), c = f.pop();
            f.push(b);
            f.push(a);
            f.push(c);
            f.push(b);
            f.push(a);
          }
          advance(f);
          break;
        }
        case DUP2_X2: {
          Expr a = f.pop();
          if (wide(a)) {
            Expr b = f.pop();
            if (wide(b)) {
              f.push(a);
              f.push(b);
              f.push(a);
            } else {
              Expr c = f.pop();
              f.push(a);
              f.push(c);
              f.push(b);
              f.push(a);
            }
          } else {
            Expr b = f.pop(), c = f.pop();
            if (wide(c)) {
              f.push(b);
              f.push(a);
              f.push(c);
              f.push(b);
              f.push(a);
            } else {
              Expr d = f.pop();
              f.push(b);
              f.push(a);
              f.push(d);
              f.push(c);
              f.push(b);
              f.push(a);
            }
          }
          advance(f);
          break;
        }
        case SWAP: {
          Expr a = f.pop(), b = f.pop();
          f.push(a);
          f.push(b);
          advance(f);
          break;
        }
        case IADD:
        case LADD:
          bin(f, Expr.ADD);
          break;
        case ISUB:
        case LSUB:
          bin(f, Expr.SUB);
          break;
        case IMUL:
        case LMUL:
          bin(f, Expr.MUL);
          break;
        case IAND:
        case LAND:
          bin(f, Expr.BAND);
          break;
        case IOR:
        case LOR:
          bin(f, Expr.BOR);
          break;
        case IXOR:
        case LXOR:
          bin(f, Expr.BXOR);
          break;
        case IDIV:
        case LDIV:
        case IREM:
        case LREM: {
          Expr d = f.peek(0);
          if (branch(s, x.eq(d, x.c(d.w, 0)))) {
            throwNew(s, "java/lang/ArithmeticException", "/ by zero");
            break;
          }
          bin(f, op == IDIV || op == LDIV ? Expr.SDIV : Expr.SREM);
          break;
        }
        case ISHL:
        case ISHR:
        case IUSHR:
        case LSHL:
        case LSHR:
        case LUSHR: {
          Expr b = f.pop(), a = f.pop();
          boolean lg = op == LSHL || op == LSHR || op == LUSHR;
          b = x.bin(Expr.BAND, b, x.i(lg ? 63 : 31));
          if (lg) {
            b = x.sext(b);
          }
          f.push(x.bin(op == ISHL || op == LSHL ? Expr.SHL : op == ISHR || op == LSHR ? Expr.ASHR
              : Expr.LSHR, a, b));
          advance(f);
          break;
        }
        case INEG: {
          Expr a = f.pop();
          f.push(x.bin(Expr.SUB, x.i(0), a));
          advance(f);
          break;
        }
        case LNEG: {
          Expr a = f.pop();
          f.push(x.bin(Expr.SUB, x.l(0), a));
          advance(f);
          break;
        }
        case FADD:
        case FSUB:
        case FMUL:
        case FDIV:
        case FREM: {
          float b = fl(f.pop()), a = fl(f.pop());
          f.push(x.fl(op == FADD ? a + b : op == FSUB ? a - b : op == FMUL ? a * b : op == FDIV ? a / b : a % b));
          advance(f);
          break;
        }
        case DADD:
        case DSUB:
        case DMUL:
        case DDIV:
        case DREM: {
          double b = db(f.pop()), a = db(f.pop());
          f.push(x.db(op == DADD ? a + b : op == DSUB ? a - b : op == DMUL ? a * b : op == DDIV ? a / b : a % b));
          advance(f);
          break;
        }
        case FNEG:
          f.push(x.fl(-fl(f.pop())));
          advance(f);
          break;
        case DNEG:
          f.push(x.db(-db(f.pop())));
          advance(f);
          break;
        case IINC:
          f.loc[m.x[pc]] = x.add(f.loc[m.x[pc]], x.i((Integer) m.a[pc]));
          advance(f);
          break;
        case I2L:
          f.push(x.sext(f.pop()));
          advance(f);
          break;
        case L2I:
          f.push(x.lo32(f.pop()));
          advance(f);
          break;
        case I2B:
          f.push(narrow(f.pop(), 24));
          advance(f);
          break;
        case I2S:
          f.push(narrow(f.pop(), 16));
          advance(f);
          break;
        case I2C:
          f.push(x.bin(Expr.BAND, f.pop(), x.i(0xffff)));
          advance(f);
          break;
        case I2F:
          f.push(x.fl((float) (int) cst(f.pop())));
          advance(f);
          break;
        case I2D:
          f.push(x.db((double) (int) cst(f.pop())));
          advance(f);
          break;
        case L2F:
          f.push(x.fl((float) cst(f.pop())));
          advance(f);
          break;
        case L2D:
          f.push(x.db((double) cst(f.pop())));
          advance(f);
          break;
        case F2I:
          f.push(x.i((int) fl(f.pop())));
          advance(f);
          break;
        case F2L:
          f.push(x.l((long) fl(f.pop())));
          advance(f);
          break;
        case F2D:
          f.push(x.db(fl(f.pop())));
          advance(f);
          break;
        case D2I:
          f.push(x.i((int) db(f.pop())));
          advance(f);
          break;
        case D2L:
          f.push(x.l((long) db(f.pop())));
          advance(f);
          break;
        case D2F:
          f.push(x.fl((float) db(f.pop())));
          advance(f);
          break;
        case LCMP: {
          Expr b = f.pop(), a = f.pop();
          f.push(x.ite(x.slt(a, b), x.i(-1), x.ite(x.eq(a, b), x.i(0), x.i(1))));
          advance(f);
          break;
        }
        case FCMPL:
        case FCMPG: {
          float b = fl(f.pop()), a = fl(f.pop());
          f.push(x.i(a < b ? -1 : a > b ? 1 : a == b ? 0 : op == FCMPL ? -1 : 1));
          advance(f);
          break;
        }
        case DCMPL:
        case DCMPG: {
          double b = db(f.pop()), a = db(f.pop());
          f.push(x.i(a < b ? -1 : a > b ? 1 : a == b ? 0 : op == DCMPL ? -1 : 1));
          advance(f);
          break;
        }
        case IFEQ:
        case IFNE:
        case IFLT:
        case IFGE:
        case IFGT:
        case IFLE:
        case IFNULL:
        case IFNONNULL: {
          Expr v = f.peek(0);
          Expr c;
          switch (op) {
            case IFEQ:
            case IFNULL:
              c = x.eq(v, x.i(0));
              break;
            case IFNE:
            case IFNONNULL:
              c = x.not(x.eq(v, x.i(0)));
              break;
            case IFLT:
              c = x.slt(v, x.i(0));
              break;
            case IFGE:
              c = x.not(x.slt(v, x.i(0)));
              break;
            case IFGT:
              c = x.slt(x.i(0), v);
              break;
            default:
              c = x.not(x.slt(x.i(0), v));
          }
          boolean b = branch(s, c);
          f.drop(1);
          if (b) {
            jump(f, m.tgt[pc][0]);
          } else {
            advance(f);
          }
          break;
        }
        case IF_ICMPEQ:
        case IF_ICMPNE:
        case IF_ICMPLT:
        case IF_ICMPGE:
        case IF_ICMPGT:
        case IF_ICMPLE:
        case IF_ACMPEQ:
        case IF_ACMPNE: {
          Expr v2 = f.peek(0), v1 = f.peek(1);
          Expr c;
          switch (op) {
            case IF_ICMPEQ:
            case IF_ACMPEQ:
              c = x.eq(v1, v2);
              break;
            case IF_ICMPNE:
            case IF_ACMPNE:
              c = x.not(x.eq(v1, v2));
              break;
            case IF_ICMPLT:
              c = x.slt(v1, v2);
              break;
            case IF_ICMPGE:
              c = x.not(x.slt(v1, v2));
              break;
            case IF_ICMPGT:
              c = x.slt(v2, v1);
              break;
            default:
              c = x.not(x.slt(v2, v1));
          }
          boolean b = branch(s, c);
          f.drop(2);
          if (b) {
            jump(f, m.tgt[pc][0]);
          } else {
            advance(f);
          }
          break;
        }
        case GOTO:
          jump(f, m.tgt[pc][0]);
          break;
        case TABLESWITCH:
        case LOOKUPSWITCH: {
          Expr v = f.peek(0);
          int[] keys = (int[]) m.a[pc];
          int target = -1;
          if (v.isConst()) {
            target = m.tgt[pc][keys.length];
            for (int i = 0; i < keys.length; i++) {
              if (keys[i] == v.k) {
                target = m.tgt[pc][i];
                break;
              }
            }
          } else {
            for (int i = 0; i < keys.length && target < 0; i++) {
              if (branch(s, x.eq(v, x.i(keys[i])))) {
                target = m.tgt[pc][i];
              }
            }
            if (target < 0) {
              target = m.tgt[pc][keys.length];
            }
          }
          f.drop(1);
          jump(f, target);
          break;
        }
        case IRETURN:
        case LRETURN:
        case FRETURN:
        case DRETURN:
        case ARETURN:
        case RETURN: {
          Expr v = op == RETURN ? null : f.peek(0);
          if (v != null && v.w == 32) {
            int sort = m.ret.getSort();
            if (sort == Type.BOOLEAN) {
              v = x.bin(Expr.BAND, v, x.i(1));
            } else if (sort == Type.BYTE) {
              v = narrow(v, 24);
            } else if (sort == Type.SHORT) {
              v = narrow(v, 16);
            } else if (sort == Type.CHAR) {
              v = x.bin(Expr.BAND, v, x.i(0xffff));
            }
          }
          boolean bd = f.boundary;
          t.pop();
          if (bd) {
            return;
          }
          if (t.n == 0) {
            ex.threadDone(s);
            return;
          }
          Frame g = t.top();
          if (v != null) {
            g.push(v);
          }
          advance(g);
          if (e != null && e.yieldTo(s)) {
            return;
          }
          break;
        }
        case GETSTATIC:
        case PUTSTATIC: {
          Fld fl;
          if (m.a[pc] instanceof FieldInsnNode) {
            FieldInsnNode fi = (FieldInsnNode) m.a[pc];
            fl = findField(cls(fi.owner), fi.name);
            if (fl == null) {
              throw new Unsupported("no field " + fi.owner + "." + fi.name);
            }
            m.a[pc] = fl;
          } else {
            fl = (Fld) m.a[pc];
          }
          init(fl.owner);
          if (op == GETSTATIC) {
            Expr v = intrinsics.staticField(fl);
            f.push(v != null ? v : obj(s, fl.owner.staticsId).f[fl.idx]);
          } else {
            s.heap.mut(fl.owner.staticsId).f[fl.idx] = f.pop();
          }
          advance(f);
          break;
        }
        case GETFIELD: {
          Fld fl = fld(m, pc);
          Expr ref = f.peek(0);
          if (npe(s, ref)) {
            break;
          }
          Expr v = getF(s, ref, fl);
          f.drop(1);
          f.push(v);
          advance(f);
          break;
        }
        case PUTFIELD: {
          Fld fl = fld(m, pc);
          Expr ref = f.peek(1);
          if (npe(s, ref)) {
            break;
          }
          putF(s, ref, fl, f.peek(0));
          if (s.solo && fl.owner.name.equals("verif/rt/Cell")) {
            s.solo = false; // may enable another thread
          }
          f.drop(2);
          advance(f);
          break;
        }
        case INVOKESTATIC:
        case INVOKESPECIAL: {
          Meth c;
          if (m.a[pc] instanceof MethodInsnNode) {
            MethodInsnNode mi = (MethodInsnNode) m.a[pc];
            c = intrinsics.redirect(mi.owner, mi.name, mi.desc);
            if (c == null) {
              c = findMethod(cls(mi.owner), mi.name + mi.desc);
            }
            if (c == null) {
              throw new Unsupported("no method " + mi.owner + "." + mi.name + mi.desc);
            }
            m.a[pc] = c;
          } else {
            c = (Meth) m.a[pc];
          }
          if (op == INVOKESTATIC) {
            init(c.owner);
          } else if (!c.isStatic && npe(s, f.peek(c.nArgs - 1))) {
            break;
          }
          invoke(s, f, c);
          break;
        }
        case INVOKEVIRTUAL:
        case INVOKEINTERFACE: {
          MethodInsnNode mi = (MethodInsnNode) m.a[pc];
          int na = argCount(mi);
          Expr ref = f.peek(na);
          if (npe(s, ref)) {
            break;
          }
          Meth red = intrinsics.redirect(mi.owner, mi.name, mi.desc);
          if (red != null) {
            init(red.owner);
            invoke(s, f, red);
            break;
          }
          String key = mi.name + mi.desc;
          if (ref.isConst()) {
            Obj o = obj(s, (int) ref.k);
            invoke(s, f, resolveV(o.cls, mi.owner, key));
            break;
          }
          Map<Meth, List<Expr>> groups = new LinkedHashMap<>();
          for (long id : leaves(ref)) {
            if (id == 0) {
              continue;
            }
            Obj o = obj(s, (int) id);
            if (o == null) {
              continue;
            }
            Meth c = resolveV(o.cls, mi.owner, key);
            groups.computeIfAbsent(c, z -> new ArrayList<>()).add(x.eq(ref, x.i(id)));
          }
          if (groups.size() == 1) {
            Meth only = groups.keySet().iterator().next();
            if (ref.leaves().length > groups.get(only).size()) {
              f.poke(na, restrict(ref, groups.get(only)));
            }
            invoke(s, f, only);
            break;
          }
          Meth chosen = null;
          int gi = 0;
          for (Map.Entry<Meth, List<Expr>> g : groups.entrySet()) {
            if (++gi == groups.size() || branch(s, x.or(g.getValue()))) {
              chosen = g.getKey();
              f.poke(na, restrict(ref, g.getValue()));
              break;
            }
          }
          invoke(s, f, chosen);
          break;
        }
        case NEW: {
          Cls c = cls((String) m.a[pc]);
          init(c);
          int id = allocObj(s, f, c);
          f.push(x.i(id));
          advance(f);
          break;
        }
        case NEWARRAY:
        case ANEWARRAY: {
          Expr len = f.peek(0);
          String d;
          if (op == NEWARRAY) {
            d = "ZCFDBSIJ".substring(m.x[pc] - 4, m.x[pc] - 3);
          } else {
            String t2 = (String) m.a[pc];
            d = t2.startsWith("[") ? t2 : "L" + t2 + ";";
          }
          Integer n = concretize(s, len);
          if (n == null) {
            break;
          }
          if (n < 0) {
            throwNew(s, "java/lang/NegativeArraySizeException", null);
            break;
          }
          int id = allocArr(s, f, d, n, 0);
          f.drop(1);
          f.push(x.i(id));
          advance(f);
          break;
        }
        case MULTIANEWARRAY: {
          int dims = m.x[pc];
          int[] ns = new int[dims];
          for (int i = 0; i < dims; i++) {
            ns[i] = (int) cst(f.peek(dims - 1 - i));
          }
          Expr r = multi(s, f, (String) m.a[pc], ns, 0, "m");
          f.drop(dims);
          f.push(r);
          advance(f);
          break;
        }
        case ARRAYLENGTH: {
          Expr ref = f.peek(0);
          if (npe(s, ref)) {
            break;
          }
          Expr v = arrLen(s, ref);
          f.drop(1);
          f.push(v);
          advance(f);
          break;
        }
        case ATHROW: {
          Expr ref = f.peek(0);
          if (npe(s, ref)) {
            break;
          }
          Map<Cls, List<Expr>> groups = new LinkedHashMap<>();
          for (long id : leaves(ref)) {
            if (id != 0 && obj(s, (int) id) != null) {
              groups.computeIfAbsent(obj(s, (int) id).cls, z -> new ArrayList<>()).add(x.eq(ref, x.i(id)));
            }
          }
          Cls chosen = null;
          int gi = 0;
          for (Map.Entry<Cls, List<Expr>> g : groups.entrySet()) {
            if (++gi == groups.size() || branch(s, x.or(g.getValue()))) {
              chosen = g.getKey();
              break;
            }
          }
          unwind(s, ref, chosen);
          if (t.n == 0) {
            return;
          }
          break;
        }
        case CHECKCAST: {
          Expr ref = f.peek(0);
          Cls c = typeOperand((String) m.a[pc]);
          Expr ok = x.or(isNull(ref), instOf(s, ref, c));
          if (!branch(s, ok)) {
            throwNew(s, "java/lang/ClassCastException", null);
            break;
          }
          if (!ref.isConst()) {
            Set<Long> keep = new HashSet<>();
            boolean all = true;
            for (long id : leaves(ref)) {
              if (id == 0 || obj(s, (int) id) != null && isSub(obj(s, (int) id).cls, c)) {
                keep.add(id);
              } else {
                all = false;
              }
            }
            if (!all && !keep.isEmpty()) {
              f.poke(0, restrict(ref, keep, new HashMap<>()));
            }
          }
          advance(f);
          break;
        }
        case INSTANCEOF: {
          Expr ref = f.pop();
          f.push(x.b2i(instOf(s, ref, typeOperand((String) m.a[pc]))));
          advance(f);
          break;
        }
        case MONITORENTER:
        case MONITOREXIT:
          f.drop(1);
          advance(f);
          break;
        default:
          throw new Unsupported("opcode " + op + " in " + m);
      }
      if (s.parked || s.dead) {
        return;
      }
    }
  }

  private Meth resolveV(Cls c, String owner, String key) {
    if (c.isArray()) {
      return virtual(cls("java/lang/Object"), key);
    }
    // private methods called with invokevirtual (nestmates)
    Cls oc = classes.get(owner);
    if (oc != null && oc.methods.containsKey(key) && oc.methods.get(key).isPrivate) {
      return oc.methods.get(key);
    }
    return virtual(c, key);
  }

  private final java.util.IdentityHashMap<MethodInsnNode, Integer> argCounts = new java.util.IdentityHashMap<>();

  private int argCount(MethodInsnNode mi) {
    Integer n = argCounts.get(mi);
    if (n == null) {
      n = Type.getArgumentTypes(mi.desc).length;
      argCounts.put(mi, n);
    }
    return n;
  }

  private Expr multi(State s, Frame f, String desc, int[] ns, int d, String tag) {
    int id = allocArr(s, f, desc.substring(1), ns[d], tag);
    if (d + 1 < ns.length) {
      for (int i = 0; i < ns[d]; i++) {
        s.heap.mut(id).f[i] = multi(s, f, desc.substring(1), ns, d + 1, tag + "." + i);
      }
    }
    return x.i(id);
  }

  /** Concrete value of an int in this state, forking over the (few) alternatives; never null on return unless the
   * state was left. */
  Integer concretize(State s, Expr v) {
    if (v.isConst()) {
      return (int) v.k;
    }
    long[] ls = v.leaves();
    if (ls != null) {
      for (int i = 0; i < ls.length - 1; i++) {
        if (branch(s, x.eq(v, x.i(ls[i])))) {
          return (int) ls[i];
        }
      }
      return (int) ls[ls.length - 1];
    }
    for (int i = 0; i < 64; i++) {
      long val = s.wit.get(0).eval(v);
      if (branch(s, x.eq(v, x.c(v.w, val)))) {
        return (int) val;
      }
    }
    throw new Unsupported("too many values to concretise");
  }

  private Fld fld(Meth m, int pc) {
    if (m.a[pc] instanceof FieldInsnNode) {
      FieldInsnNode fi = (FieldInsnNode) m.a[pc];
      Fld fl = findField(cls(fi.owner), fi.name);
      if (fl == null) {
        throw new Unsupported("no field " + fi.owner + "." + fi.name);
      }
      m.a[pc] = fl;
    }
    return (Fld) m.a[pc];
  }

  private void bin(Frame f, int op) {
    Expr b = f.pop(), a = f.pop();
    f.push(x.bin(op, a, b));
    advance(f);
  }

  private Expr narrow(Expr v, int sh) {
    if (v.isConst()) {
      return x.i((int) v.k << sh >> sh);
    }
    if (v.leaves() != null) {
      boolean same = true;
      for (long l : v.leaves()) {
        same &= (int) l << sh >> sh == l;
      }
      if (same) {
        return v;
      }
    }
    return x.bin(Expr.ASHR, x.bin(Expr.SHL, v, x.i(sh)), x.i(sh));
  }

  static long cst(Expr e) {
    if (!e.isConst()) {
      throw new Unsupported("symbolic value where a concrete one is needed");
    }
    return e.k;
  }

  static float fl(Expr e) {
    return Float.intBitsToFloat((int) cst(e));
  }

  static double db(Expr e) {
    return Double.longBitsToDouble(cst(e));
  }
}
