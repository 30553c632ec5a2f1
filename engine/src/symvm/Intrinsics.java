package symvm;

import java.util.ArrayList;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import org.objectweb.asm.Type;

/** Natives, string operations, and the Sym / Sched interface of the harnesses. */
final class Intrinsics {
  private final Vm vm;
  private final X x;
  private final Map<String, Meth.Intrinsic> table = new HashMap<>();
  private final Map<String, String[]> redirects = new HashMap<>();
  private final Map<String, Meth> redirectCache = new HashMap<>();

  Intrinsics(Vm vm) {
    this.vm = vm;
    this.x = vm.x;
    sym();
    sched();
    jdk();
  }

  private void def(String key, Meth.Intrinsic i) {
    table.put(key, i);
  }

  Meth.Intrinsic lookup(Meth m) {
    String o = m.owner.name;
    if (o.equals("java/lang/String")) {
      if (m.name.equals("<clinit>")) {
        return null;
      }
      return (v, s, f, mm, a) -> string(s, f, mm, a);
    }
    Meth.Intrinsic i = table.get(o + "." + m.name + m.desc);
    if (i == null) {
      i = table.get(o + "." + m.name);
    }
    if (i == null && m.name.equals("registerNatives")) {
      i = (v, s, f, mm, a) -> v.ret(f, mm, null);
    }
    return i;
  }

  boolean skipClinit(Cls c) {
    switch (c.name) {
      case "java/lang/System":
      case "java/lang/Class":
      case "java/lang/Runtime":
      case "jdk/internal/misc/Unsafe":
      case "jdk/internal/misc/VM":
      case "java/lang/ref/Reference":
      case "java/util/Locale":
      case "jdk/internal/util/ArraysSupport":
        return true;
      default:
        return false;
    }
  }

  Expr staticField(Fld f) {
    return null;
  }

  private void redir(String from, String owner, String name, String desc) {
    redirects.put(from, new String[] {owner, name, desc});
  }

  Meth redirect(String owner, String name, String desc) {
    String k = owner + "." + name + desc;
    String[] r = redirects.get(k);
    if (r == null) {
      return null;
    }
    Meth m = redirectCache.get(k);
    if (m == null) {
      m = vm.findMethod(vm.cls(r[0]), r[1] + r[2]);
      if (m == null) {
        throw new Unsupported("redirect target " + r[0] + "." + r[1] + r[2]);
      }
      redirectCache.put(k, m);
    }
    return m;
  }

  private String cstr(State s, Expr ref) {
    if (ref.isConst() && ref.k != 0) {
      Obj o = vm.obj(s, (int) ref.k);
      if (o.payload instanceof String) {
        return (String) o.payload;
      }
    }
    throw new Unsupported("constant string expected" + vm.at(s));
  }

  private Expr truth(Expr i) {
    return x.not(x.eq(i, x.i(0)));
  }

  // ------------------------------------------------------------------ Sym

  private Expr input(String label, int w, long lo, long hi) {
    Explorer e = vm.ex;
    if (e == null) {
      throw new Unsupported("input in initialiser");
    }
    if (e.fixed != null) {
      Long v = e.fixed.get(label);
      long r = v == null ? lo == Integer.MIN_VALUE ? 0 : lo : v;
      return x.c(w, r);
    }
    Expr v = e.inputs.get(label);
    if (v == null) {
      v = x.var(label, w, lo == Integer.MIN_VALUE ? 0 : lo);
      e.inputs.put(label, v);
      e.domains.put(label, new long[] {lo, hi});
      if (w == 32 && !(lo == Integer.MIN_VALUE && hi == Integer.MAX_VALUE)) {
        vm.smt.axiom(x.and(x.not(x.slt(v, x.i(lo))), x.not(x.slt(x.i(hi), v))));
      }
    } else {
      long[] d = e.domains.get(label);
      if (d[0] != lo || d[1] != hi) {
        throw new Unsupported("input " + label + " used with two domains");
      }
    }
    return v;
  }

  private final Map<Object, Expr> hashed = new java.util.IdentityHashMap<>();

  /** Hash code of a string; equal contents imply equal hashes is valid and given to the solver as a lemma. */
  private Expr hash(Object payload) {
    if (payload instanceof String) {
      return SymStr.hash(x, payload);
    }
    Expr h = hashed.get(payload);
    if (h == null) {
      h = SymStr.hash(x, payload);
      for (Map.Entry<Object, Expr> e : hashed.entrySet()) {
        vm.smt.axiom(x.or(x.not(SymStr.eq(x, e.getKey(), payload)), x.eq(e.getValue(), h)));
      }
      hashed.put(payload, h);
    }
    return h;
  }

  /** Small ranges become ITE trees over constants, so that everything derived from them stays enumerable. */
  private Expr small(Expr v, long lo, long hi) {
    if (v.isConst() || hi - lo > 32) {
      return v;
    }
    Expr r = x.i(hi);
    for (long k = hi - 1; k >= lo; k--) {
      r = x.ite(x.eq(v, x.i(k)), x.i(k), r);
    }
    return r;
  }

  private void sym() {
    String S = "verif/rt/Sym.";
    def(S + "symbolic", (v, s, f, m, a) -> v.ret(f, m, x.i(1)));
    def(S + "bool", (v, s, f, m, a) -> {
      Expr b = input(cstr(s, a[0]), 0, 0, 1);
      v.ret(f, m, x.b2i(b));
    });
    def(S + "pick", (v, s, f, m, a) -> {
      long n = Vm.cst(a[1]);
      v.ret(f, m, small(input(cstr(s, a[0]), 32, 0, n - 1), 0, n - 1));
    });
    def(S + "split", (v, s, f, m, a) -> {
      long n = Vm.cst(a[1]);
      String label = cstr(s, a[0]);
      Expr e = input(label, 32, 0, n - 1);
      for (int i = 0; i < n; i++) {
        if (i == n - 1 || v.branch(s, x.eq(e, x.i(i)))) {
          s.tag = s.tag + label + "=" + i + ",";
          v.ret(f, m, x.i(i));
          return;
        }
      }
    });
    def(S + "keep", (v, s, f, m, a) -> {
      s.tag = s.tag + cstr(s, a[0]) + ",";
      v.ret(f, m, null);
    });
    def(S + "range", (v, s, f, m, a) -> {
      long lo = Vm.cst(a[1]), hi = Vm.cst(a[2]);
      v.ret(f, m, small(input(cstr(s, a[0]), 32, lo, hi), lo, hi));
    });
    def(S + "integer", (v, s, f, m, a) ->
        v.ret(f, m, input(cstr(s, a[0]), 32, Integer.MIN_VALUE, Integer.MAX_VALUE)));
    def(S + "string", (v, s, f, m, a) -> {
      String label = cstr(s, a[0]);
      int max = (int) Vm.cst(a[1]);
      Expr len = small(input(label + ".len", 32, 0, max), 0, max);
      Expr[] ch = new Expr[max];
      for (int i = 0; i < max; i++) {
        ch[i] = input(label + ".c" + i, 32, 0, 0xffff);
        // canonical form: characters beyond the length are zero
        vm.smt.axiom(x.or(x.slt(x.i(i), len), x.eq(ch[i], x.i(0))));
      }
      Obj o = new Obj(v.cls("java/lang/String"), new Expr[0]);
      o.payload = new SymStr(len, ch, label);
      int id = v.alloc(s, f, o, label);
      v.ret(f, m, x.i(id));
    });
    def(S + "check", (v, s, f, m, a) -> {
      v.ex.check(s, cstr(s, a[0]), truth(a[1]));
      if (!s.dead) {
        v.ret(f, m, null);
      }
    });
    def(S + "assume", (v, s, f, m, a) -> {
      v.ex.constrain(s, truth(a[0]));
      if (!s.dead) {
        v.ret(f, m, null);
      }
    });
    def(S + "cover", (v, s, f, m, a) -> {
      v.ex.cover(s, cstr(s, a[0]), truth(a[1]));
      v.ret(f, m, null);
    });
    def(S + "obs", (v, s, f, m, a) -> {
      if (v.ex.fixed != null) {
        v.ex.obs.add("obs " + cstr(s, a[0]) + " = " + Vm.cst(a[1]));
      }
      v.ret(f, m, null);
    });
  }

  // ------------------------------------------------------------------ Sched

  private boolean blockedNow(State s, Frame f, Meth m, int kind, Expr ref) {
    Thr t = s.t();
    if (s.unfinished <= 1) {
      t.block = kind;
      t.blockRef = ref;
      Expr en = vm.ex.enabled(s, t);
      t.block = Thr.NONE;
      t.blockRef = null;
      if (!vm.branch(s, en)) {
        vm.ex.violation("deadlock", s.wit.get(0), "only thread blocks for ever" + vm.at(s));
        s.dead = true;
        return false;
      }
      if (kind == Thr.LOCK) {
        vm.ex.acquire(s, ref, t.tid);
      }
      vm.ret(f, m, null);
      return true;
    }
    vm.ret(f, m, null);
    t.block = kind;
    t.blockRef = ref;
    s.parked = true;
    return true;
  }

  private int start(State s, Expr threadRef, Meth run) {
    int tid = s.thr.length;
    if (tid > 8) {
      throw new Unsupported("too many threads");
    }
    s.thr = java.util.Arrays.copyOf(s.thr, tid + 1);
    Thr t = new Thr(tid);
    run.link();
    if (run.owner.repo) {
      vm.executedRepo.add(run);
    }
    Frame g = new Frame(run);
    g.loc[0] = threadRef;
    t.push(g);
    s.thr[tid] = t;
    s.unfinished++;
    return tid;
  }

  private void sched() {
    String S = "verif/rt/Sched.";
    Meth.Intrinsic nop = (v, s, f, m, a) -> v.ret(f, m, null);
    def(S + "point", (v, s, f, m, a) -> {
      v.ret(f, m, null);
      if (s.unfinished > 1) {
        s.parked = true;
      }
    });
    String cic = "java/lang/String$CaseInsensitiveComparator.compare";
    def(cic + "(Ljava/lang/String;Ljava/lang/String;)I", (v, s, f, m, a) -> string(s, f,
        v.findMethod(v.cls("java/lang/String"), "compareToIgnoreCase(Ljava/lang/String;)I"),
        new Expr[] {a[1], a[2]}));
    def(S + "access", (v, s, f, m, a) -> {
      int site = (int) Vm.cst(a[1]);
      if (s.unfinished > 1) {
        v.ex.record(s, a[0], cstr(s, a[3]), site, (Vm.cst(a[2]) & 1) != 0);
      }
      v.ret(f, m, null);
      if (s.unfinished > 1 && v.ex.active.get(site)) {
        s.parked = true;
        String loc = cstr(s, a[3]);
        int bits = (int) Vm.cst(a[2]);
        if (v.ex.races && ((bits & 4) != 0 || (bits & 2) == 0 && loc.startsWith("com/"))) {
          s.t().accRef = a[0];
          s.t().accLoc = (bits & 4) != 0 ? "atomic" : loc;
          s.t().accWrite = (bits & 1) != 0;
          s.t().accPlain = (bits & 8) != 0;
        }
      }
    });
    def(S + "tryAcquire", (v, s, f, m, a) -> {
      List<Expr> os = new ArrayList<>();
      for (long id : v.leaves(a[0])) {
        Obj o = id == 0 ? null : v.obj(s, (int) id);
        if (o != null) {
          os.add(x.and(x.eq(a[0], x.i(id)), v.ex.lockFree(o, s.cur)));
        }
      }
      if (v.branch(s, x.or(os))) {
        v.ex.acquire(s, a[0], s.cur);
        v.ret(f, m, x.i(1));
      } else {
        v.ret(f, m, x.i(0));
      }
    });
    def(S + "threadBegin", nop);
    def(S + "threadEnd", nop);
    def(S + "block", (v, s, f, m, a) -> blockedNow(s, f, m, (int) Vm.cst(a[0]), a[1]));
    def(S + "lock", (v, s, f, m, a) -> {
      if (v.npe(s, a[0])) {
        return;
      }
      if (a.length == 2) {
        int site = (int) Vm.cst(a[1]);
        if (s.unfinished > 1) {
          v.ex.record(s, a[0], "monitor", site, true);
          if (!v.ex.active.get(site)) {
            List<Expr> os = new ArrayList<>();
            for (long id : v.leaves(a[0])) {
              Obj o = id == 0 ? null : v.obj(s, (int) id);
              if (o != null) {
                os.add(x.and(x.eq(a[0], x.i(id)), v.ex.lockFree(o, s.cur)));
              }
            }
            if (v.knownDeep(s, x.or(os)) == 1 || x.or(os).isTrue()) {
              v.ex.acquire(s, a[0], s.cur);
              v.ret(f, m, null);
              return;
            }
            v.ex.activate(site);
          }
        }
      }
      blockedNow(s, f, m, Thr.LOCK, a[0]);
    });
    def(S + "unlock", (v, s, f, m, a) -> {
      if (!v.branch(s, v.ex.holds(s, a[0], s.cur))) {
        v.throwNew(s, "java/lang/IllegalMonitorStateException", null);
        return;
      }
      s.solo = false;
      v.ex.release(s, a[0]);
      v.ret(f, m, null);
    });
    def(S + "holdsLock", (v, s, f, m, a) -> v.ret(f, m, x.b2i(v.ex.holds(s, a[0], s.cur))));
    def(S + "awaitQuiescence", (v, s, f, m, a) -> blockedNow(s, f, m, Thr.QUIESCENT, null));
    def(S + "finished", (v, s, f, m, a) -> v.ret(f, m, x.b2i(x.bool(s.thr[(int) Vm.cst(a[0])].finished))));
    def(S + "current", (v, s, f, m, a) -> v.ret(f, m, x.i(s.cur)));
    def(S + "spawn", (v, s, f, m, a) -> {
      s.solo = false;
      Obj o = v.obj(s, (int) Vm.cst(a[0]));
      Meth run = v.virtual(o.cls, "run()V");
      int tid = start(s, a[0], run);
      v.ret(f, m, x.i(tid));
    });
    def(S + "startRaw", (v, s, f, m, a) -> startThread(s, f, m, a));
    def(S + "startThread", (v, s, f, m, a) -> startThread(s, f, m, a));
    def(S + "join", (v, s, f, m, a) -> {
      Thr t = thread(s, a[0]);
      if (t == null) {
        v.ret(f, m, null);
      } else {
        blockedNow(s, f, m, Thr.JOIN, x.i(t.tid));
      }
    });
    def(S + "isAlive", (v, s, f, m, a) -> {
      Thr t = thread(s, a[0]);
      v.ret(f, m, x.i(t == null || t.finished ? 0 : 1));
    });
    def("symvm/Unsup.unsupported", (v, s, f, m, a) -> {
      throw new Unsupported(cstr(s, a[0]) + v.at(s));
    });
    def("verif/models/Fmt.unsupported", (v, s, f, m, a) -> {
      throw new Unsupported(cstr(s, a[0]) + v.at(s));
    });
  }

  private Thr thread(State s, Expr ref) {
    long id = Vm.cst(ref);
    for (Thr t : s.thr) {
      if (t.threadObj != null && Vm.cst(t.threadObj) == id) {
        return t;
      }
    }
    return null;
  }

  private void startThread(State s, Frame f, Meth m, Expr[] a) {
    {
      Vm v = vm;
      s.solo = false;
      Meth run = null;
      for (long id : v.leaves(a[0])) {
        if (id == 0 || v.obj(s, (int) id) == null) {
          continue;
        }
        Meth r = v.virtual(v.obj(s, (int) id).cls, "run()V");
        if (run != null && run != r) {
          throw new Unsupported("thread of symbolic class");
        }
        run = r;
      }
      int tid = start(s, a[0], run);
      s.thr[tid].threadObj = a[0];
      v.ret(f, m, m.ret == Type.VOID_TYPE ? null : x.i(tid));
    }
  }

  private Expr threadObj(State s) {
    Thr t = s.t();
    if (t.threadObj == null) {
      Cls c = vm.cls("java/lang/Thread");
      vm.init(c);
      int id = vm.idFor(List.of("thread", t.tid));
      Obj o = new Obj(c, new Expr[c.nInstance]);
      for (int i = 0; i < o.f.length; i++) {
        o.f[i] = vm.dflt(c.instanceFields.get(i).desc);
      }
      Fld n = vm.findField(c, "name");
      o.f[n.idx] = x.i(vm.str(t.tid == 0 ? "main" : "thread-" + t.tid));
      vm.basePut(id, o);
      s.thr[s.cur].threadObj = x.i(id);
    }
    return t.threadObj;
  }

  // ------------------------------------------------------------------ JDK natives

  private Obj one(State s, Expr ref) {
    if (!ref.isConst()) {
      throw new Unsupported("single object expected" + vm.at(s));
    }
    return ref.k == 0 ? null : vm.obj(s, (int) ref.k);
  }

  /** Applies a function to each possible object of a reference and joins the results. */
  private Expr each(State s, Expr ref, java.util.function.Function<Obj, Expr> fn) {
    Expr r = null;
    for (long id : vm.leaves(ref)) {
      Obj o = id == 0 ? null : vm.obj(s, (int) id);
      if (o == null) {
        continue;
      }
      Expr v = fn.apply(o);
      r = r == null ? v : x.ite(x.eq(ref, x.i(id)), v, r);
    }
    return r;
  }

  private void jdk() {
    Meth.Intrinsic nop = (v, s, f, m, a) -> v.ret(f, m, null);
    def("java/lang/Object.<init>", nop);
    def("java/lang/Object.getClass", (v, s, f, m, a) ->
        v.ret(f, m, each(s, a[0], o -> x.i(v.classObj(o.cls.name)))));
    def("java/lang/Object.hashCode", (v, s, f, m, a) ->
        v.ret(f, m, a[0].isConst() ? x.i(a[0].k * 0x9E37 + 17) : each2(a[0])));
    def("java/lang/System.identityHashCode", (v, s, f, m, a) ->
        v.ret(f, m, a[0].isConst() ? x.i(a[0].k * 0x9E37 + 17) : each2(a[0])));
    def("java/lang/Object.clone", (v, s, f, m, a) -> {
      Expr r = null;
      if (a[0].isConst()) {
        Obj o = one(s, a[0]);
        Obj c = new Obj(o.cls, o.f.clone());
        c.payload = o.payload;
        int id = v.alloc(s, f, c, "clone" + o.f.length);
        v.ret(f, m, x.i(id));
        return;
      }
      for (long q : v.leaves(a[0])) {
        Obj o = q == 0 ? null : v.obj(s, (int) q);
        if (o == null) {
          continue;
        }
        Obj c = new Obj(o.cls, o.f.clone());
        c.payload = o.payload;
        int id = v.alloc(s, f, c, List.of("clone", o.f.length, q));
        r = r == null ? x.i(id) : x.ite(x.eq(a[0], x.i(q)), x.i(id), r);
      }
      v.ret(f, m, r);
    });
    def("java/lang/Class.getSuperclass", (v, s, f, m, a) -> v.ret(f, m, each(s, a[0], o -> {
      String n = (String) o.payload;
      if (n.length() == 1 || n.equals("java/lang/Object")) {
        return x.i(0);
      }
      Cls c = v.cls(n);
      return x.i(c.isInterface() ? 0 : v.classObj((c.node == null ? "java/lang/Object" : c.node.superName)));
    })));
    def("java/lang/Class.getModifiers", (v, s, f, m, a) -> v.ret(f, m, each(s, a[0],
        o -> x.i(((String) o.payload).length() == 1 ? 1041 : v.cls((String) o.payload).node.access & 0x7e1f & ~0x20))));
    def("java/lang/StringUTF16.isBigEndian", (v, s, f, m, a) -> v.ret(f, m, x.i(0)));
    def("jdk/internal/util/ArraysSupport.vectorizedMismatch", (v, s, f, m, a) -> v.ret(f, m, x.i(~(int) Vm.cst(a[4]))));
    def("java/lang/ref/Reference.refersTo0", (v, s, f, m, a) -> v.ret(f, m, x.b2i(
        x.eq(v.getF(s, a[0], v.findField(v.cls("java/lang/ref/Reference"), "referent").idx), a[1]))));
    def("java/lang/ref/PhantomReference.refersTo0", (v, s, f, m, a) -> v.ret(f, m, x.i(0)));
    def("java/lang/StrictMath.log", (v, s, f, m, a) -> v.ret(f, m, x.c(Expr.F64,
        Double.doubleToRawLongBits(StrictMath.log(Vm.db(a[0]))))));
    def("java/lang/Class.desiredAssertionStatus", (v, s, f, m, a) -> v.ret(f, m, x.i(0)));
    def("java/lang/Class.isInstance", (v, s, f, m, a) ->
        v.ret(f, m, x.b2i(v.instOf(s, a[1], v.cls((String) one(s, a[0]).payload)))));
    def("java/lang/Class.cast", (v, s, f, m, a) -> v.ret(f, m, a[1]));
    def("java/lang/Class.getName", (v, s, f, m, a) -> v.ret(f, m, each(s, a[0],
        o -> x.i(v.str(((String) o.payload).replace('/', '.'))))));
    def("java/lang/Class.getTypeName", (v, s, f, m, a) -> v.ret(f, m, each(s, a[0],
        o -> x.i(v.str(((String) o.payload).replace('/', '.'))))));
    def("java/lang/Class.toString", (v, s, f, m, a) -> v.ret(f, m, each(s, a[0],
        o -> x.i(v.str("class " + ((String) o.payload).replace('/', '.'))))));
    def("java/lang/Class.getSimpleName", (v, s, f, m, a) -> v.ret(f, m, each(s, a[0], o -> {
      String n = (String) o.payload;
      n = n.substring(n.lastIndexOf('/') + 1);
      return x.i(v.str(n.substring(n.lastIndexOf('$') + 1)));
    })));
    def("java/lang/Class.hashCode", (v, s, f, m, a) -> v.ret(f, m, each(s, a[0],
        o -> x.i(o.payload.hashCode()))));
    def("java/lang/Class.isArray", (v, s, f, m, a) -> v.ret(f, m, each(s, a[0],
        o -> x.i(((String) o.payload).startsWith("[") ? 1 : 0))));
    def("java/lang/Class.isInterface", (v, s, f, m, a) -> v.ret(f, m, each(s, a[0],
        o -> x.i(v.cls((String) o.payload).isInterface() ? 1 : 0))));
    def("java/lang/Class.isPrimitive", (v, s, f, m, a) -> v.ret(f, m, each(s, a[0],
        o -> x.i(((String) o.payload).length() == 1 ? 1 : 0))));
    def("java/lang/Class.getComponentType", (v, s, f, m, a) -> v.ret(f, m, each(s, a[0], o -> {
      String n = (String) o.payload;
      if (!n.startsWith("[")) {
        return x.i(0);
      }
      String e = n.substring(1);
      return x.i(v.classObj(e.startsWith("L") ? e.substring(1, e.length() - 1) : e));
    })));
    def("java/lang/Class.isAssignableFrom", (v, s, f, m, a) -> v.ret(f, m, x.i(
        v.isSub(v.cls((String) one(s, a[1]).payload), v.cls((String) one(s, a[0]).payload)) ? 1 : 0)));
    def("java/lang/Class.getPrimitiveClass", (v, s, f, m, a) -> {
      String n = cstr(s, a[0]);
      String d = Map.of("int", "I", "long", "J", "boolean", "Z", "byte", "B", "char", "C", "short", "S",
          "float", "F", "double", "D", "void", "V").get(n);
      v.ret(f, m, x.i(v.classObj(d)));
    });
    def("java/lang/Class.getEnumConstantsShared", (v, s, f, m, a) -> enumValues(s, f, m, one(s, a[0])));
    def("java/lang/Class.getEnumConstants", (v, s, f, m, a) -> enumValues(s, f, m, one(s, a[0])));
    def("java/util/EnumMap.getKeyUniverse", (v, s, f, m, a) -> enumValues(s, f, m, one(s, a[0])));
    def("java/util/EnumSet.getUniverse", (v, s, f, m, a) -> enumValues(s, f, m, one(s, a[0])));
    def("java/lang/Enum.hashCode", (v, s, f, m, a) -> v.ret(f, m, each(s, a[0],
        o -> x.add(o.f[v.findField(o.cls, "ordinal").idx], x.i(o.cls.name.hashCode())))));
    def("java/lang/System.arraycopy", this::arraycopy);
    def("java/lang/System.nanoTime", (v, s, f, m, a) -> v.ret(f, m, x.l(1000000000L)));
    def("java/lang/System.currentTimeMillis", (v, s, f, m, a) -> v.ret(f, m, x.l(1700000000000L)));
    def("java/lang/System.getProperty", (v, s, f, m, a) -> v.ret(f, m, m.nArgs == 2 ? a[1] : x.i(0)));
    def("java/lang/System.getSecurityManager", (v, s, f, m, a) -> v.ret(f, m, x.i(0)));
    def("java/lang/System.allowSecurityManager", (v, s, f, m, a) -> v.ret(f, m, x.i(0)));
    def("java/lang/System.lineSeparator", (v, s, f, m, a) -> v.ret(f, m, x.i(v.str("\n"))));
    def("java/lang/Float.floatToRawIntBits", (v, s, f, m, a) -> v.ret(f, m, x.i(Vm.cst(a[0]))));
    def("java/lang/Float.intBitsToFloat", (v, s, f, m, a) -> v.ret(f, m, x.c(Expr.F32, Vm.cst(a[0]))));
    def("java/lang/Double.doubleToRawLongBits", (v, s, f, m, a) -> v.ret(f, m, x.l(Vm.cst(a[0]))));
    def("java/lang/Double.longBitsToDouble", (v, s, f, m, a) -> v.ret(f, m, x.c(Expr.F64, Vm.cst(a[0]))));
    def("jdk/internal/reflect/Reflection.getCallerClass", (v, s, f, m, a) -> v.ret(f, m, x.i(0)));
    def("jdk/internal/misc/CDS.isDumpingClassList0", (v, s, f, m, a) -> v.ret(f, m, x.i(0)));
    def("jdk/internal/misc/CDS.isDumpingArchive0", (v, s, f, m, a) -> v.ret(f, m, x.i(0)));
    def("jdk/internal/misc/CDS.isSharingEnabled0", (v, s, f, m, a) -> v.ret(f, m, x.i(0)));
    def("jdk/internal/misc/CDS.getRandomSeedForDumping", (v, s, f, m, a) -> v.ret(f, m, x.l(0)));
    def("jdk/internal/misc/CDS.initializeFromArchive", nop);
    def("jdk/internal/misc/VM.initLevel", (v, s, f, m, a) -> v.ret(f, m, m.ret == Type.VOID_TYPE ? null : x.i(4)));
    def("jdk/internal/misc/VM.isBooted", (v, s, f, m, a) -> v.ret(f, m, x.i(1)));
    def("jdk/internal/misc/VM.getSavedProperty", (v, s, f, m, a) -> v.ret(f, m, x.i(0)));
    def("java/lang/reflect/Array.newArray", (v, s, f, m, a) -> newArray(s, f, m, a));
    def("java/lang/reflect/Array.newInstance(Ljava/lang/Class;I)Ljava/lang/Object;",
        (v, s, f, m, a) -> newArray(s, f, m, a));
    def("java/lang/Thread.currentThread", (v, s, f, m, a) -> v.ret(f, m, threadObj(s)));
    def("java/lang/Thread.holdsLock", (v, s, f, m, a) -> v.ret(f, m, x.b2i(v.ex.holds(s, a[0], s.cur))));
    // boxes: identity of cached small values is not modelled
    for (String[] b : new String[][] {{"Integer", "I"}, {"Short", "S"}, {"Byte", "B"}, {"Character", "C"},
        {"Long", "J"}}) {
      def("java/lang/" + b[0] + ".valueOf(" + b[1] + ")Ljava/lang/" + b[0] + ";", (v, s, f, m, a) -> {
        Cls c = m.owner;
        if (a[0].isConst() && (a[0].w == 32 || true)) {
          int id = v.idFor(List.of("box", c, a[0].k));
          if (v.baseGet(id) == null) {
            Obj o = new Obj(c, new Expr[c.nInstance]);
            o.f[v.findField(c, "value").idx] = a[0];
            v.basePut(id, o);
          }
          v.ret(f, m, x.i(id));
          return;
        }
        int id = v.allocObj(s, f, c);
        s.heap.mut(id).f[v.findField(c, "value").idx] = a[0];
        v.ret(f, m, x.i(id));
      });
    }
    for (String[] b : new String[][] {{"Integer", "I"}, {"Long", "J"}}) {
      Meth.Intrinsic ts = (v, s, f, m, a) -> {
        if (m.nArgs > 1) {
          v.ret(f, m, x.i(v.str(Long.toString(Vm.cst(a[0]), (int) Vm.cst(a[1])))));
          return;
        }
        numStr(s, f, m, a[0]);
      };
      def("java/lang/" + b[0] + ".toString(" + b[1] + ")Ljava/lang/String;", ts);
      def("java/lang/" + b[0] + ".toString(" + b[1] + "I)Ljava/lang/String;", ts);
    }
    def("java/lang/Double.toString(D)Ljava/lang/String;", (v, s, f, m, a) ->
        v.ret(f, m, x.i(v.str(Double.toString(Vm.db(a[0]))))));
    def("java/lang/Float.toString(F)Ljava/lang/String;", (v, s, f, m, a) ->
        v.ret(f, m, x.i(v.str(Float.toString(Vm.fl(a[0]))))));
    Meth.Intrinsic chr = (v, s, f, m, a) -> v.ret(f, m, x.i(a[0].isConst() ? v.str(String.valueOf((char) a[0].k))
        : symStr(List.of("derived", "valueOf", a[0]), () -> SymStr.ch1(x, a[0]))));
    def("java/lang/Character.toString(C)Ljava/lang/String;", chr);
    def("java/lang/String.valueOf(C)Ljava/lang/String;", chr);
    def("java/lang/Math.multiplyHigh", (v, s, f, m, a) ->
        v.ret(f, m, x.l(Math.multiplyHigh(Vm.cst(a[0]), Vm.cst(a[1])))));
    redir("verif/rt/Sched.interrupt(Ljava/lang/Thread;)V", "java/lang/Thread", "interrupt0", "(Ljava/lang/Thread;)V");
    redir("verif/rt/Sched.isInterrupted(Ljava/lang/Thread;)Z", "java/lang/Thread", "isInterrupted0",
        "(Ljava/lang/Thread;)Z");
    redir("verif/rt/Sched.interrupted()Z", "java/lang/Thread", "interrupted", "()Z");
    String F = "verif/models/Fmt";
    redir("java/lang/String.format(Ljava/lang/String;[Ljava/lang/Object;)Ljava/lang/String;", F, "format",
        "(Ljava/lang/String;[Ljava/lang/Object;)Ljava/lang/String;");
    redir("java/lang/String.formatted([Ljava/lang/Object;)Ljava/lang/String;", F, "format",
        "(Ljava/lang/String;[Ljava/lang/Object;)Ljava/lang/String;");
    String LO = "Ljava/util/Locale;", ST = "Ljava/lang/String;";
    redir("java/lang/String.format(" + LO + ST + "[Ljava/lang/Object;)" + ST, F, "format",
        "(" + LO + ST + "[Ljava/lang/Object;)" + ST);
    redir("java/lang/String.toLowerCase(" + LO + ")" + ST, F, "lower", "(" + ST + LO + ")" + ST);
    redir("java/lang/String.toUpperCase(" + LO + ")" + ST, F, "upper", "(" + ST + LO + ")" + ST);
    redir("java/lang/String.valueOf(Ljava/lang/Object;)Ljava/lang/String;", F, "valueOf",
        "(Ljava/lang/Object;)Ljava/lang/String;");
    redir("java/lang/String.join(Ljava/lang/CharSequence;[Ljava/lang/CharSequence;)Ljava/lang/String;", F, "join",
        "(Ljava/lang/CharSequence;[Ljava/lang/CharSequence;)Ljava/lang/String;");
    redir("java/lang/String.join(Ljava/lang/CharSequence;Ljava/lang/Iterable;)Ljava/lang/String;", F, "join",
        "(Ljava/lang/CharSequence;Ljava/lang/Iterable;)Ljava/lang/String;");
    redir("java/util/stream/StreamSupport.stream(Ljava/util/Spliterator;Z)Ljava/util/stream/Stream;",
        "verif/models/MStream", "of", "(Ljava/util/Spliterator;Z)Ljava/util/stream/Stream;");
    redir("java/util/stream/StreamSupport.intStream(Ljava/util/Spliterator$OfInt;Z)Ljava/util/stream/IntStream;",
        "verif/models/MIntStream", "of", "(Ljava/util/Spliterator$OfInt;Z)Ljava/util/stream/IntStream;");
  }

  private Expr each2(Expr ref) {
    Expr r = null;
    for (long id : vm.leaves(ref)) {
      Expr v = x.i(id * 0x9E37 + 17);
      r = r == null ? v : x.ite(x.eq(ref, x.i(id)), v, r);
    }
    return r;
  }

  private void numStr(State s, Frame f, Meth m, Expr v) {
    long[] ls = v.leaves();
    if (ls != null) {
      Expr r = null;
      for (long l : ls) {
        Expr q = x.i(strAt(s, f, Long.toString(l)));
        r = r == null ? q : x.ite(x.eq(v, x.c(v.w, l)), q, r);
      }
      vm.ret(f, m, r);
      return;
    }
    vm.ret(f, m, x.i(opaqueAt(s, f, "number")));
  }

  private void enumValues(State s, Frame f, Meth m, Obj cls) {
    Cls c = vm.cls((String) cls.payload);
    vm.init(c);
    Meth values = vm.findMethod(c, "values()[L" + c.name + ";");
    f.drop(m.nArgs);
    // executes values() in place of the native; its result is pushed on return
    vm.call(s, f, values);
  }

  private void newArray(State s, Frame f, Meth m, Expr[] a) {
    String n = (String) one(s, a[0]).payload;
    String d = n.startsWith("[") || n.length() == 1 && "ZBCSIJFD".contains(n) ? n : "L" + n + ";";
    Integer len = vm.concretize(s, a[1]);
    int id = vm.allocArr(s, f, d, len, "refl");
    vm.ret(f, m, x.i(id));
  }

  private void arraycopy(Vm v, State s, Frame f, Meth m, Expr[] a) {
    if (v.npe(s, a[0]) || v.npe(s, a[2])) {
      return;
    }
    int sp = v.concretize(s, a[1]), dp = v.concretize(s, a[3]), n = v.concretize(s, a[4]);
    Expr sl = v.arrLen(s, a[0]), dl = v.arrLen(s, a[2]);
    Expr ok = x.bool(sp >= 0 && dp >= 0 && n >= 0);
    ok = x.and(ok, x.not(x.slt(sl, x.i(sp + n))), x.not(x.slt(dl, x.i(dp + n))));
    if (!v.branch(s, ok)) {
      v.throwNew(s, "java/lang/ArrayIndexOutOfBoundsException", null);
      return;
    }
    Expr[] tmp = new Expr[n];
    for (int i = 0; i < n; i++) {
      tmp[i] = v.arrRead(s, a[0], x.i(sp + i));
    }
    for (int i = 0; i < n; i++) {
      v.arrWrite(s, a[2], x.i(dp + i), tmp[i]);
    }
    v.ret(f, m, null);
  }

  // ------------------------------------------------------------------ strings

  private int strAt(State s, Frame f, String val) {
    int site = vm.site(f);
    int id = vm.idFor(List.of("str", site, val));
    if (vm.baseGet(id) == null) {
      Obj o = new Obj(vm.cls("java/lang/String"), new Expr[0]);
      o.payload = val;
      vm.basePut(id, o);
    }
    return id;
  }

  private int opaqueAt(State s, Frame f, String tag) {
    int site = vm.site(f);
    int id = vm.idFor(List.of("opq", site));
    if (vm.baseGet(id) == null) {
      Obj o = new Obj(vm.cls("java/lang/String"), new Expr[0]);
      o.payload = SymStr.opaque(tag);
      vm.basePut(id, o);
    }
    return id;
  }

  private Object pay(State s, long id) {
    Obj o = id == 0 ? null : vm.obj(s, (int) id);
    return o == null ? null : o.payload;
  }

  private void string(State s, Frame f, Meth m, Expr[] a) {
    String key = m.name + m.desc;
    switch (key) {
      case "<init>(Ljava/lang/String;)V": {
        int src = vm.concretize(s, a[1]);
        s.heap.mut((int) Vm.cst(a[0])).payload = pay(s, src);
        vm.ret(f, m, null);
        return;
      }
      case "<init>()V":
        s.heap.mut((int) Vm.cst(a[0])).payload = "";
        vm.ret(f, m, null);
        return;
      case "<init>([C)V":
      case "<init>([CII)V": {
        Obj arr = one(s, a[1]);
        int off = 0, n = arr.f.length;
        if (m.nArgs == 4) {
          off = (int) Vm.cst(a[2]);
          n = (int) Vm.cst(a[3]);
        }
        boolean symbolic = false;
        for (int i = 0; i < n; i++) {
          symbolic |= !arr.f[off + i].isConst();
        }
        if (symbolic) {
          s.heap.mut((int) Vm.cst(a[0])).payload =
              new SymStr(x.i(n), java.util.Arrays.copyOfRange(arr.f, off, off + n), "chars");
          vm.ret(f, m, null);
          return;
        }
        StringBuilder sb = new StringBuilder();
        for (int i = 0; i < n; i++) {
          sb.append((char) Vm.cst(arr.f[off + i]));
        }
        s.heap.mut((int) Vm.cst(a[0])).payload = sb.toString();
        vm.ret(f, m, null);
        return;
      }
      case "equals(Ljava/lang/Object;)Z": {
        List<Expr> os = new ArrayList<>();
        for (long p : vm.leaves(a[0])) {
          Object pp = pay(s, p);
          if (p == 0 || pp == null) {
            continue;
          }
          for (long q : vm.leaves(a[1])) {
            Obj qo = q == 0 ? null : vm.obj(s, (int) q);
            if (qo == null || !qo.cls.name.equals("java/lang/String")) {
              continue;
            }
            Expr e = p == q ? x.T : SymStr.eq(x, pp, qo.payload);
            os.add(x.and(x.eq(a[0], x.i(p)), x.eq(a[1], x.i(q)), e));
          }
        }
        vm.ret(f, m, x.b2i(x.or(os)));
        return;
      }
      case "hashCode()I":
        vm.ret(f, m, each(s, a[0], o -> hash(o.payload)));
        return;
      case "length()I":
        vm.ret(f, m, each(s, a[0], o -> SymStr.length(x, o.payload)));
        return;
      case "isEmpty()Z":
        vm.ret(f, m, x.b2i(x.eq(each(s, a[0], o -> SymStr.length(x, o.payload)), x.i(0))));
        return;
      case "toString()Ljava/lang/String;":
      case "intern()Ljava/lang/String;":
        if (m.name.equals("toString")) {
          vm.ret(f, m, a[0]);
          return;
        }
        break;
      case "charAt(I)C": {
        boolean sym = false;
        for (long q : vm.leaves(a[0])) {
          sym |= pay(s, q) instanceof SymStr;
        }
        if (sym) {
          if (vm.npe(s, a[0])) {
            return;
          }
          Expr len = each(s, a[0], o -> SymStr.length(x, o.payload));
          if (!vm.branch(s, x.and(x.not(x.slt(a[1], x.i(0))), x.slt(a[1], len)))) {
            vm.throwNew(s, "java/lang/StringIndexOutOfBoundsException", null);
            return;
          }
          vm.ret(f, m, each(s, a[0], o -> SymStr.of(x, o.payload).at(x, a[1])));
          return;
        }
        break;
      }
      case "concat(Ljava/lang/String;)Ljava/lang/String;":
        if (vm.npe(s, a[0]) || vm.npe(s, a[1])) {
          return;
        }
        break;
      case "startsWith(Ljava/lang/String;)Z":
      case "endsWith(Ljava/lang/String;)Z":
      case "equalsIgnoreCase(Ljava/lang/String;)Z":
      case "compareToIgnoreCase(Ljava/lang/String;)I":
      case "compareTo(Ljava/lang/String;)I": {
        Expr r = affix(s, m, a);
        if (r != null) {
          vm.ret(f, m, r);
          return;
        }
        break;
      }
      default:
    }
    generic(s, f, m, a);
  }

  /** startsWith / endsWith / equalsIgnoreCase / compareTo on symbolic strings (ASCII case folding is not modelled). */
  private Expr affix(State s, Meth m, Expr[] a) {
    boolean anySym = false;
    for (int i = 0; i < 2; i++) {
      for (long q : vm.leaves(a[i])) {
        anySym |= pay(s, q) instanceof SymStr;
        if (q == 0 && i == 1) {
          return null;
        }
      }
    }
    if (!anySym) {
      return null;
    }
    Expr r = null;
    for (long p : vm.leaves(a[0])) {
      for (long q : vm.leaves(a[1])) {
        if (p == 0 || q == 0 || pay(s, p) == null || pay(s, q) == null) {
          continue;
        }
        SymStr u = SymStr.of(x, pay(s, p)), w = SymStr.of(x, pay(s, q));
        if (u.isOpaque() || w.isOpaque()) {
          throw new Unsupported("content of a computed string");
        }
        Expr v;
        if (m.name.equals("startsWith")) {
          List<Expr> c = new ArrayList<>();
          c.add(x.not(x.slt(u.len(), w.len())));
          for (int i = 0; i < w.ch().length; i++) {
            Expr past = x.not(x.slt(x.i(i), w.len()));
            c.add(i < u.ch().length ? x.or(past, x.eq(u.ch()[i], w.ch()[i])) : past);
          }
          v = x.b2i(x.and(c));
        } else if (m.name.startsWith("compareTo")) {
          if (!m.name.equals("compareTo")) {
            u = folded(u);
            w = folded(w);
          }
          v = x.bin(Expr.SUB, u.len(), w.len());
          for (int i = Math.min(u.ch().length, w.ch().length) - 1; i >= 0; i--) {
            Expr in = x.and(x.slt(x.i(i), u.len()), x.slt(x.i(i), w.len()), x.not(x.eq(u.ch()[i], w.ch()[i])));
            v = x.ite(in, x.bin(Expr.SUB, u.ch()[i], w.ch()[i]), v);
          }
        } else if (m.name.equals("equalsIgnoreCase")) {
          List<Expr> c = new ArrayList<>();
          c.add(x.eq(u.len(), w.len()));
          int n = Math.min(u.ch().length, w.ch().length);
          c.add(x.not(x.slt(x.i(n), u.len())));
          for (int i = 0; i < n; i++) {
            c.add(x.or(x.not(x.slt(x.i(i), u.len())), x.eq(fold(u.ch()[i]), fold(w.ch()[i]))));
          }
          v = x.b2i(x.and(c));
        } else {
          throw new Unsupported("String." + m.name + " on symbolic strings");
        }
        r = r == null ? v : x.ite(x.and(x.eq(a[0], x.i(p)), x.eq(a[1], x.i(q))), v, r);
      }
    }
    return r;
  }

  private SymStr folded(SymStr u) {
    Expr[] c = u.ch().clone();
    for (int i = 0; i < c.length; i++) {
      c[i] = fold(c[i]);
    }
    return new SymStr(u.len(), c, u.tag);
  }

  private Expr fold(Expr c) { // ASCII only: a counterexample must still replay natively
    return x.ite(x.and(x.not(x.slt(c, x.i('A'))), x.not(x.slt(x.i('Z'), c))), x.add(c, x.i(32)), c);
  }

  /** Any other String method: executed by the real method for every combination of concrete arguments. */
  private void generic(State s, Frame f, Meth m, Expr[] a) {
    if (m.name.equals("<init>")) {
      throw new Unsupported("String constructor " + m.desc);
    }
    boolean sym = false;
    for (int i = 0; i < a.length; i++) {
      if (a[i].w == 32 && isStrArg(m, i)) {
        for (long q : vm.leaves(a[i])) {
          Object p = pay(s, q);
          sym |= p instanceof SymStr;
        }
      }
    }
    if (!m.isStatic && vm.npe(s, a[0])) {
      return;
    }
    if (sym) {
      if (derived(s, f, m, a) || s.dead) {
        return;
      }
      if (m.ret.getDescriptor().equals("Ljava/lang/String;")) {
        vm.ret(f, m, x.i(opaqueAt(s, f, "String." + m.name)));
        return;
      }
      throw new Unsupported("String." + m.name + " on a symbolic string" + vm.at(s));
    }
    List<long[]> combos = new ArrayList<>();
    combos.add(new long[a.length]);
    for (int i = 0; i < a.length; i++) {
      long[] ls = a[i].leaves();
      if (ls == null) {
        throw new Unsupported("String." + m.name + " on a symbolic argument");
      }
      List<long[]> next = new ArrayList<>();
      for (long[] c : combos) {
        for (long l : ls) {
          if (a[i].w == 32 && isRefArg(m, i) && l != 0 && vm.obj(s, (int) l) == null || l == 0 && isRefArg(m, i)
              && (i == 0 && !m.isStatic || m.name.equals("concat"))) {
            continue;
          }
          long[] d = c.clone();
          d[i] = l;
          next.add(d);
        }
      }
      combos = next;
      boolean str = m.ret.getDescriptor().equals("Ljava/lang/String;");
      if (combos.size() > (str ? 64 : 1024)) {
        if (derived(s, f, m, a) || s.dead) {
          return;
        }
        if (str) { // usable until its content matters
          vm.ret(f, m, x.i(opaqueAt(s, f, "String." + m.name)));
          return;
        }
        throw new Unsupported("String." + m.name + ": too many argument combinations");
      }
    }
    Expr r = null;
    for (long[] c : combos) {
      Expr v = concrete(s, f, m, a, c, combos.size() == 1);
      if (v == null) {
        return; // exception thrown or void
      }
      if (r == null) {
        r = v;
      } else {
        List<Expr> g = new ArrayList<>();
        for (int i = 0; i < a.length; i++) {
          g.add(x.eq(a[i], x.c(a[i].w, c[i])));
        }
        r = x.ite(x.and(g), v, r);
      }
    }
    vm.ret(f, m, r);
  }

  private int symStr(List<Object> key, java.util.function.Supplier<SymStr> content) {
    int id = vm.idFor(key);
    if (vm.baseGet(id) == null) {
      Obj o = new Obj(vm.cls("java/lang/String"), new Expr[0]);
      o.payload = SymStr.lazy(content, "String." + key.get(1));
      vm.basePut(id, o);
    }
    return id;
  }

  /** String methods on symbolic strings whose result is again a symbolic string or an expression. */
  private boolean derived(State s, Frame f, Meth m, Expr[] a) {
    String key = m.name + m.desc;
    java.util.function.Function<SymStr, SymStr> one = null;
    java.util.function.BinaryOperator<SymStr> two = null;
    java.util.function.Function<SymStr, Expr> val = null;
    java.util.function.BiFunction<SymStr, SymStr, Expr> val2 = null;
    switch (key) {
      case "concat(Ljava/lang/String;)Ljava/lang/String;":
        two = (p, q) -> SymStr.concat(x, p, q);
        break;
      case "substring(I)Ljava/lang/String;":
      case "substring(II)Ljava/lang/String;": {
        boolean opq = false;
        for (long q : vm.leaves(a[0])) {
          opq |= q != 0 && SymStr.of(x, pay(s, q)).isOpaque();
        }
        if (opq) {
          return false;
        }
        Expr len = each(s, a[0], o -> SymStr.length(x, o.payload));
        Expr to = m.desc.startsWith("(II") ? a[2] : len;
        if (!vm.branch(s, x.and(x.not(x.slt(a[1], x.i(0))), x.not(x.slt(to, a[1])), x.not(x.slt(len, to))))) {
          vm.throwNew(s, "java/lang/StringIndexOutOfBoundsException", null);
          return true;
        }
        one = p -> SymStr.sub(x, p, a[1], m.desc.startsWith("(II") ? a[2] : p.len());
        break;
      }
      case "trim()Ljava/lang/String;":
      case "strip()Ljava/lang/String;":
        one = p -> SymStr.trim(x, p, m.name.equals("trim"));
        break;
      case "toLowerCase()Ljava/lang/String;":
        one = p -> SymStr.map(x, p, this::fold);
        break;
      case "toUpperCase()Ljava/lang/String;":
        one = p -> SymStr.map(x, p, c -> x.ite(x.and(x.not(x.slt(c, x.i('a'))), x.not(x.slt(x.i('z'), c))),
            x.add(c, x.i(-32)), c));
        break;
      case "replace(CC)Ljava/lang/String;":
        one = p -> SymStr.map(x, p, c -> x.ite(x.eq(c, a[1]), a[2], c));
        break;
      case "isBlank()Z":
        val = p -> x.b2i(SymStr.isBlank(x, p));
        break;
      case "indexOf(I)I":
        val = p -> SymStr.indexOf(x, p, SymStr.ch1(x, a[1]), x.i(0));
        break;
      case "indexOf(II)I":
        val = p -> SymStr.indexOf(x, p, SymStr.ch1(x, a[1]), a[2]);
        break;
      case "indexOf(Ljava/lang/String;)I":
        val2 = (p, q) -> SymStr.indexOf(x, p, q, x.i(0));
        break;
      case "contains(Ljava/lang/CharSequence;)Z":
        val2 = (p, q) -> x.b2i(x.not(x.slt(SymStr.indexOf(x, p, q, x.i(0)), x.i(0))));
        break;
      default:
        return false;
    }
    List<Object> ints = new ArrayList<>();
    for (int i = 1; i < a.length; i++) {
      if (!isRefArg(m, i)) {
        ints.add(a[i]);
      }
    }
    boolean binary = two != null || val2 != null;
    if (binary && vm.npe(s, a[1])) {
      return true;
    }
    long[] ls = vm.leaves(a[0]), rs = binary ? vm.leaves(a[1]) : new long[] {0};
    if ((long) ls.length * rs.length > 64) {
      SymStr u = collapse(s, a[0], ls), w = binary ? collapse(s, a[1], rs) : SymStr.of(x, "");
      if (u == null || w == null) {
        return false;
      }
      java.util.function.Function<SymStr, SymStr> o1 = one;
      java.util.function.BinaryOperator<SymStr> o2 = two;
      List<Object> pays = new ArrayList<>();
      for (long p : ls) {
        pays.add(p == 0 ? "null" : pay(s, p));
      }
      for (long q : rs) {
        pays.add(q == 0 || !binary ? "null" : pay(s, q));
      }
      vm.ret(f, m, val != null ? val.apply(u) : val2 != null ? val2.apply(u, w) : x.i(symStr(
          List.of("derived*", key, a[0], binary ? a[1] : a[0], pays, ints),
          () -> o1 != null ? o1.apply(u) : o2.apply(u, w))));
      return true;
    }
    Expr r = null;
    for (long p : ls) {
      for (long q : rs) {
        Object pp = pay(s, p), qq = binary ? pay(s, q) : "";
        if (pp == null || qq == null || !(qq instanceof String || qq instanceof SymStr)) {
          if (p == 0 || binary && q == 0) {
            continue;
          }
          return false;
        }
        SymStr u = SymStr.of(x, pp), w = SymStr.of(x, qq);
        Expr v;
        if (val != null) {
          v = val.apply(u);
        } else if (val2 != null) {
          v = val2.apply(u, w);
        } else {
          java.util.function.Function<SymStr, SymStr> o1 = one;
          java.util.function.BinaryOperator<SymStr> o2 = two;
          v = x.i(symStr(List.of("derived", key, pp, qq, ints), () -> o1 != null ? o1.apply(u) : o2.apply(u, w)));
        }
        r = r == null ? v : x.ite(binary ? x.and(x.eq(a[0], x.i(p)), x.eq(a[1], x.i(q))) : x.eq(a[0], x.i(p)), v, r);
      }
    }
    if (r == null) {
      return false;
    }
    vm.ret(f, m, r);
    return true;
  }

  /** One symbolic string with the content the reference has under each of its values. */
  private SymStr collapse(State s, Expr ref, long[] ls) {
    Object r = null;
    for (long p : ls) {
      if (p == 0) {
        continue;
      }
      Object o = pay(s, p);
      if (!(o instanceof String || o instanceof SymStr)) {
        return null;
      }
      Object b = r;
      r = b == null ? o : SymStr.lazy(() -> SymStr.of(x, SymStr.merge(vm, x.eq(ref, x.i(p)), o, b)), "any of");
    }
    return r == null ? null : SymStr.of(x, r);
  }

  private boolean isRefArg(Meth m, int i) {
    if (!m.isStatic && i == 0) {
      return true;
    }
    return Vm.isRefDesc(m.argTypes[m.isStatic ? i : i - 1].getDescriptor());
  }

  private boolean isStrArg(Meth m, int i) {
    return isRefArg(m, i);
  }

  private Object toJava(State s, Type t, long v) {
    switch (t.getSort()) {
      case Type.BOOLEAN:
        return v != 0;
      case Type.CHAR:
        return (char) v;
      case Type.INT:
        return (int) v;
      case Type.LONG:
        return v;
      case Type.BYTE:
        return (byte) v;
      default:
    }
    if (v == 0) {
      return null;
    }
    Obj o = vm.obj(s, (int) v);
    if (o.payload instanceof String && o.cls.name.equals("java/lang/String")) {
      return o.payload;
    }
    if (o.cls.name.equals("[C")) {
      char[] c = new char[o.f.length];
      for (int i = 0; i < c.length; i++) {
        c[i] = (char) Vm.cst(o.f[i]);
      }
      return c;
    }
    if (o.cls.name.equals("java/lang/StringBuilder")) {
      Expr str = o.f[vm.findField(o.cls, "s").idx];
      return toJava(s, t, Vm.cst(str));
    }
    throw new Unsupported("argument of class " + o.cls + " to a String method");
  }

  private Expr concrete(State s, Frame f, Meth m, Expr[] a, long[] c, boolean only) {
    try {
      Class<?>[] pt = new Class<?>[m.argTypes.length];
      Object[] av = new Object[pt.length];
      for (int i = 0; i < pt.length; i++) {
        pt[i] = javaClass(m.argTypes[i]);
        av[i] = toJava(s, m.argTypes[i], c[m.isStatic ? i : i + 1]);
      }
      java.lang.reflect.Method jm = String.class.getDeclaredMethod(m.name, pt);
      if (!java.lang.reflect.Modifier.isPublic(jm.getModifiers())) {
        throw new Unsupported("internal String method " + m);
      }
      Object self = m.isStatic ? null : toJava(s, Type.getObjectType("java/lang/String"), c[0]);
      Object r;
      try {
        r = jm.invoke(self, av);
      } catch (java.lang.reflect.InvocationTargetException e) {
        if (!only) {
          throw new Unsupported("String." + m.name + " may throw");
        }
        vm.throwNew(s, e.getTargetException().getClass().getName().replace('.', '/'),
            e.getTargetException().getMessage());
        return null;
      }
      if (r instanceof String) {
        return x.i(strAt(s, f, (String) r));
      }
      if (r instanceof Integer) {
        return x.i((Integer) r);
      }
      if (r instanceof Boolean) {
        return x.i((Boolean) r ? 1 : 0);
      }
      if (r instanceof Character) {
        return x.i((Character) r);
      }
      if (r instanceof char[]) {
        char[] cs = (char[]) r;
        int id = vm.allocArr(s, f, "C", cs.length, new String(cs));
        for (int i = 0; i < cs.length; i++) {
          s.heap.mut(id).f[i] = x.i(cs[i]);
        }
        return x.i(id);
      }
      if (r instanceof String[]) {
        String[] cs = (String[]) r;
        int id = vm.allocArr(s, f, "Ljava/lang/String;", cs.length, List.of(cs));
        for (int i = 0; i < cs.length; i++) {
          s.heap.mut(id).f[i] = x.i(vm.str(cs[i]));
        }
        return x.i(id);
      }
      throw new Unsupported("result of String." + m.name);
    } catch (ReflectiveOperationException e) {
      throw new Unsupported("String." + m.name + m.desc, e);
    }
  }

  private static Class<?> javaClass(Type t) throws ClassNotFoundException {
    switch (t.getSort()) {
      case Type.BOOLEAN:
        return boolean.class;
      case Type.CHAR:
        return char.class;
      case Type.INT:
        return int.class;
      case Type.LONG:
        return long.class;
      case Type.BYTE:
        return byte.class;
      case Type.ARRAY:
        return Class.forName(t.getDescriptor().replace('/', '.'));
      default:
        return Class.forName(t.getClassName());
    }
  }
}
