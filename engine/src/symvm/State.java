package symvm;

import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashMap;
import java.util.List;

/** Path condition: persistent list of conjuncts; lemma nodes are implied by the rest. */
final class Pc {
  final Pc up;
  final Expr e;
  final boolean lemma;
  final int depth;

  Pc(Pc up, Expr e, boolean lemma) {
    this.up = up;
    this.e = e;
    this.lemma = lemma;
    this.depth = up == null ? 1 : up.depth + 1;
  }
}

final class Obj {
  final Cls cls;
  Expr[] f;
  Object payload;
  Expr monOwner, monCount; // null = free
  Object stamp;

  Obj(Cls cls, Expr[] f) {
    this.cls = cls;
    this.f = f;
  }

  Obj copy(Object stamp) {
    Obj o = new Obj(cls, f.clone());
    o.payload = payload;
    o.monOwner = monOwner;
    o.monCount = monCount;
    o.stamp = stamp;
    return o;
  }
}

/** Copy-on-write heap over the VM's base heap. */
final class Heap {
  static final int B = 6, N = 1 << B;
  private Obj[][] pages;
  private Object[] pageStamp;
  private Object stamp = new Object();
  private final Vm vm;
  final boolean base;

  Heap(Vm vm, boolean base) {
    this.vm = vm;
    this.base = base;
    pages = new Obj[64][];
    pageStamp = new Object[64];
  }

  private Heap(Heap h) {
    this.vm = h.vm;
    this.base = false;
    pages = h.pages.clone();
    pageStamp = new Object[pages.length];
  }

  Heap fork() {
    Heap h = new Heap(this);
    stamp = new Object();
    Arrays.fill(pageStamp, null);
    return h;
  }

  Obj get(int id) {
    if (!base) {
      int p = id >> B;
      if (p < pages.length && pages[p] != null) {
        Obj o = pages[p][id & N - 1];
        if (o != null) {
          return o;
        }
      }
    }
    return vm.baseGet(id);
  }

  Obj own(int id) {
    int p = id >> B;
    return p < pages.length && pages[p] != null ? pages[p][id & N - 1] : null;
  }

  void put(int id, Obj o) {
    if (base) {
      vm.basePut(id, o);
      return;
    }
    int p = id >> B;
    if (p >= pages.length) {
      int n = Math.max(p + 1, pages.length * 2);
      pages = Arrays.copyOf(pages, n);
      pageStamp = Arrays.copyOf(pageStamp, n);
    }
    if (pages[p] == null) {
      pages[p] = new Obj[N];
      pageStamp[p] = stamp;
    } else if (pageStamp[p] != stamp) {
      pages[p] = pages[p].clone();
      pageStamp[p] = stamp;
    }
    o.stamp = stamp;
    pages[p][id & N - 1] = o;
  }

  /** Writable version of an object. */
  Obj mut(int id) {
    Obj o = get(id);
    if (o == null) {
      throw new IllegalStateException("no object " + id);
    }
    if (base) {
      return o;
    }
    if (o.stamp != stamp) {
      o = o.copy(stamp);
      put(id, o);
    }
    return o;
  }

  int nPages() {
    return pages.length;
  }

  Obj[] page(int p) {
    return p < pages.length ? pages[p] : null;
  }
}

final class Frame {
  final Meth m;
  int pc;
  final Expr[] loc;
  final Expr[] st;
  int sp;
  final int[] iter;
  Expr syncRef; // lock held by a synchronized method
  boolean boundary;

  Frame(Meth m) {
    this.m = m;
    loc = new Expr[m.node.maxLocals];
    st = new Expr[m.node.maxStack + 2];
    iter = m.nComps == 0 ? NOITER : new int[m.nComps];
  }

  private static final int[] NOITER = new int[0];

  private Frame(Frame f) {
    m = f.m;
    pc = f.pc;
    loc = f.loc.clone();
    st = f.st.clone();
    sp = f.sp;
    iter = f.iter.length == 0 ? f.iter : f.iter.clone();
    syncRef = f.syncRef;
    boundary = f.boundary;
  }

  Frame copy() {
    return new Frame(this);
  }

  void push(Expr e) {
    st[sp++] = e;
  }

  Expr pop() {
    Expr e = st[--sp];
    st[sp] = null;
    return e;
  }

  void poke(int fromTop, Expr e) {
    st[sp - 1 - fromTop] = e;
  }

  Expr peek(int fromTop) {
    return st[sp - 1 - fromTop];
  }

  void drop(int n) {
    for (int i = 0; i < n; i++) {
      st[--sp] = null;
    }
  }

  /** Order of two frames of the same method. */
  int cmp(Frame o) {
    if (pc == o.pc && iter.length == 0) {
      return 0;
    }
    int ba = m.blockOf[pc], bb = m.blockOf[o.pc];
    int[] pa = m.path[ba], pb = m.path[bb];
    int[] ca = m.comps[ba];
    for (int d = 0; ; d++) {
      if (pa[d] != pb[d]) {
        return Integer.compare(pa[d], pb[d]);
      }
      boolean la = d == pa.length - 1, lb = d == pb.length - 1;
      if (la && lb) {
        return Integer.compare(pc, o.pc);
      }
      if (la || lb) {
        throw new IllegalStateException("wto");
      }
      int c = ca[d];
      if (iter[c] != o.iter[c]) {
        return Integer.compare(iter[c], o.iter[c]);
      }
    }
  }
}

final class Thr {
  static final int NONE = 0, ZERO = 1, NONZERO = 2, LOCK = 3, QUIESCENT = 4, JOIN = 5, ZERO_I = 6,
      NONZERO_I = 7;
  final int tid;
  Frame[] fr = new Frame[16];
  int n;
  boolean finished;
  int block = NONE;
  Expr blockRef;
  /** The field access a parked thread is about to make, if any. */
  Expr accRef;
  String accLoc;
  boolean accWrite, accPlain;
  Expr threadObj;

  Thr(int tid) {
    this.tid = tid;
  }

  Frame top() {
    return fr[n - 1];
  }

  void push(Frame f) {
    if (n == fr.length) {
      if (n > 2000) {
        throw new Unsupported("stack too deep");
      }
      fr = Arrays.copyOf(fr, n * 2);
    }
    fr[n++] = f;
  }

  void pop() {
    fr[--n] = null;
  }

  Thr copy() {
    Thr t = new Thr(tid);
    t.fr = new Frame[fr.length];
    for (int i = 0; i < n; i++) {
      t.fr[i] = fr[i].copy();
    }
    t.n = n;
    t.finished = finished;
    t.block = block;
    t.blockRef = blockRef;
    t.accRef = accRef;
    t.accLoc = accLoc;
    t.accWrite = accWrite;
    t.accPlain = accPlain;
    t.threadObj = threadObj;
    return t;
  }

  int cmp(Thr o) {
    for (int i = 0; ; i++) {
      if (i >= n || i >= o.n) {
        return Integer.compare(n, o.n);
      }
      Frame a = fr[i], b = o.fr[i];
      if (a.m != b.m) {
        return Integer.compare(a.m.num, b.m.num);
      }
      int c = a.cmp(b);
      if (c != 0) {
        return c;
      }
    }
  }

  /** Control location used to merge parked states (loop counters ignored). */
  void skel(StringBuilder sb) {
    if (finished) {
      sb.append("F;");
      return;
    }
    sb.append(block).append(':');
    for (int i = 0; i < n; i++) {
      sb.append(fr[i].m.num).append('@').append(fr[i].pc).append(',');
    }
    sb.append(';');
  }
}

final class State {
  Pc pc;
  Heap heap;
  Thr[] thr;
  int cur;
  int step;
  List<Model> wit;
  HashMap<Long, Integer> counters;
  private boolean sharedCounters;
  int unfinished = 1;
  boolean parked, dead;
  boolean solo; // only this thread could run at the last decision, and it has not enabled another since
  int inits;
  String tag = ""; // case splits made; states of different cases are not merged

  State fork() {
    State s = new State();
    s.pc = pc;
    s.heap = heap.fork();
    s.thr = thr.clone();
    s.thr[cur] = thr[cur].copy();
    s.cur = cur;
    s.step = step;
    s.wit = wit;
    s.counters = counters;
    s.sharedCounters = true;
    sharedCounters = true;
    s.unfinished = unfinished;
    s.solo = solo;
    s.tag = tag;
    return s;
  }

  int nextCount(long key) {
    if (sharedCounters) {
      counters = new HashMap<>(counters);
      sharedCounters = false;
    }
    Integer c = counters.get(key);
    int n = c == null ? 0 : c;
    counters.put(key, n + 1);
    return n;
  }

  void setCounters(HashMap<Long, Integer> c) {
    counters = c;
    sharedCounters = false;
  }

  Thr t() {
    return thr[cur];
  }

  List<Expr> conj() {
    List<Expr> l = new ArrayList<>();
    for (Pc p = pc; p != null; p = p.up) {
      if (!p.lemma) {
        l.add(p.e);
      }
    }
    return l;
  }
}
