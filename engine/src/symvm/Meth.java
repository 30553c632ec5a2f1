package symvm;

import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import org.objectweb.asm.Opcodes;
import org.objectweb.asm.Type;
import org.objectweb.asm.tree.AbstractInsnNode;
import org.objectweb.asm.tree.FieldInsnNode;
import org.objectweb.asm.tree.IincInsnNode;
import org.objectweb.asm.tree.IntInsnNode;
import org.objectweb.asm.tree.JumpInsnNode;
import org.objectweb.asm.tree.LabelNode;
import org.objectweb.asm.tree.LdcInsnNode;
import org.objectweb.asm.tree.LineNumberNode;
import org.objectweb.asm.tree.LookupSwitchInsnNode;
import org.objectweb.asm.tree.MethodInsnNode;
import org.objectweb.asm.tree.MethodNode;
import org.objectweb.asm.tree.MultiANewArrayInsnNode;
import org.objectweb.asm.tree.TableSwitchInsnNode;
import org.objectweb.asm.tree.TryCatchBlockNode;
import org.objectweb.asm.tree.TypeInsnNode;
import org.objectweb.asm.tree.VarInsnNode;

/** Method code in index form, with a weak topological order of its blocks for merge scheduling. */
final class Meth {
  interface Intrinsic {
    /** Returns true when the call was completed (or the state left the instruction). */
    void call(Vm vm, State s, Frame f, Meth m, Expr[] args);
  }

  final Cls owner;
  final MethodNode node;
  final String name, desc;
  final boolean isStatic, isNative, isAbstract, isSync, isPrivate;
  final Type[] argTypes;
  final Type ret;
  final int nArgs; // including receiver
  final int num;
  Intrinsic intrinsic;
  Meth redirect;
  boolean linked;

  int[] op;
  int[] x;
  Object[] a;
  int[] line;
  int[][] tgt;      // jump / switch targets (default last)
  int[] blockOf;
  boolean[] leader;
  int[][] path;     // per block: wto path
  int[][] comps;    // per block: containing component ids (outermost first)
  int[] headComp;   // per block: component id it heads, or -1
  int nComps;
  int[] hStart, hEnd, hPc;
  String[] hType;
  int siteBase;
  boolean[] covered;

  static int counter = 0;

  Meth(Cls owner, MethodNode node, int num) {
    this.owner = owner;
    this.node = node;
    this.name = node.name;
    this.desc = node.desc;
    this.isStatic = (node.access & Opcodes.ACC_STATIC) != 0;
    this.isNative = (node.access & Opcodes.ACC_NATIVE) != 0;
    this.isAbstract = (node.access & Opcodes.ACC_ABSTRACT) != 0;
    this.isSync = (node.access & Opcodes.ACC_SYNCHRONIZED) != 0;
    this.isPrivate = (node.access & Opcodes.ACC_PRIVATE) != 0;
    this.argTypes = Type.getArgumentTypes(desc);
    this.ret = Type.getReturnType(desc);
    this.nArgs = argTypes.length + (isStatic ? 0 : 1);
    this.num = num;
  }

  String sig() {
    return owner.name + "." + name + desc;
  }

  @Override
  public String toString() {
    return sig();
  }

  void link() {
    if (linked) {
      return;
    }
    linked = true;
    List<AbstractInsnNode> ins = new ArrayList<>();
    Map<LabelNode, Integer> labels = new HashMap<>();
    List<Integer> lines = new ArrayList<>();
    int ln = 0;
    for (AbstractInsnNode n = node.instructions.getFirst(); n != null; n = n.getNext()) {
      if (n instanceof LabelNode) {
        labels.put((LabelNode) n, ins.size());
      } else if (n instanceof LineNumberNode) {
        ln = ((LineNumberNode) n).line;
      } else if (n.getOpcode() >= 0) {
        ins.add(n);
        lines.add(ln);
      }
    }
    int n = ins.size();
    op = new int[n];
    x = new int[n];
    a = new Object[n];
    tgt = new int[n][];
    line = new int[n];
    leader = new boolean[n + 1];
    covered = new boolean[n];
    leader[0] = true;
    for (int i = 0; i < n; i++) {
      AbstractInsnNode q = ins.get(i);
      op[i] = q.getOpcode();
      line[i] = lines.get(i);
      if (q instanceof VarInsnNode) {
        x[i] = ((VarInsnNode) q).var;
      } else if (q instanceof IntInsnNode) {
        x[i] = ((IntInsnNode) q).operand;
      } else if (q instanceof IincInsnNode) {
        x[i] = ((IincInsnNode) q).var;
        a[i] = ((IincInsnNode) q).incr;
      } else if (q instanceof JumpInsnNode) {
        tgt[i] = new int[] {labels.get(((JumpInsnNode) q).label)};
      } else if (q instanceof TableSwitchInsnNode) {
        TableSwitchInsnNode t = (TableSwitchInsnNode) q;
        int[] keys = new int[t.labels.size()];
        tgt[i] = new int[keys.length + 1];
        for (int j = 0; j < keys.length; j++) {
          keys[j] = t.min + j;
          tgt[i][j] = labels.get(t.labels.get(j));
        }
        tgt[i][keys.length] = labels.get(t.dflt);
        a[i] = keys;
      } else if (q instanceof LookupSwitchInsnNode) {
        LookupSwitchInsnNode t = (LookupSwitchInsnNode) q;
        int[] keys = new int[t.labels.size()];
        tgt[i] = new int[keys.length + 1];
        for (int j = 0; j < keys.length; j++) {
          keys[j] = t.keys.get(j);
          tgt[i][j] = labels.get(t.labels.get(j));
        }
        tgt[i][keys.length] = labels.get(t.dflt);
        a[i] = keys;
      } else if (q instanceof LdcInsnNode) {
        a[i] = ((LdcInsnNode) q).cst;
      } else if (q instanceof TypeInsnNode) {
        a[i] = ((TypeInsnNode) q).desc;
      } else if (q instanceof FieldInsnNode || q instanceof MethodInsnNode) {
        a[i] = q;
      } else if (q instanceof MultiANewArrayInsnNode) {
        a[i] = ((MultiANewArrayInsnNode) q).desc;
        x[i] = ((MultiANewArrayInsnNode) q).dims;
      } else {
        a[i] = q;
      }
      if (tgt[i] != null) {
        for (int t : tgt[i]) {
          leader[t] = true;
        }
        leader[i + 1] = true;
      }
      if (op[i] >= Opcodes.IRETURN && op[i] <= Opcodes.RETURN || op[i] == Opcodes.ATHROW) {
        leader[i + 1] = true;
      }
    }
    int nh = node.tryCatchBlocks.size();
    hStart = new int[nh];
    hEnd = new int[nh];
    hPc = new int[nh];
    hType = new String[nh];
    for (int i = 0; i < nh; i++) {
      TryCatchBlockNode t = node.tryCatchBlocks.get(i);
      hStart[i] = labels.get(t.start);
      hEnd[i] = labels.get(t.end);
      hPc[i] = labels.get(t.handler);
      hType[i] = t.type;
      leader[hPc[i]] = true;
      leader[hStart[i]] = true;
      leader[hEnd[i]] = true;
    }
    // blocks
    blockOf = new int[n];
    int nb = -1;
    List<Integer> starts = new ArrayList<>();
    for (int i = 0; i < n; i++) {
      if (leader[i]) {
        nb++;
        starts.add(i);
      }
      blockOf[i] = nb;
    }
    nb++;
    int[][] succ = new int[nb][];
    for (int b = 0; b < nb; b++) {
      int s = starts.get(b);
      int e = b + 1 < nb ? starts.get(b + 1) : n;
      List<Integer> out = new ArrayList<>();
      int last = e - 1;
      int o = op[last];
      boolean falls = !(o == Opcodes.GOTO || o == Opcodes.TABLESWITCH || o == Opcodes.LOOKUPSWITCH
          || o == Opcodes.ATHROW || o >= Opcodes.IRETURN && o <= Opcodes.RETURN);
      if (tgt[last] != null) {
        for (int t : tgt[last]) {
          out.add(blockOf[t]);
        }
      }
      if (falls && e < n) {
        out.add(b + 1);
      }
      for (int i = 0; i < nh; i++) {
        if (s < hEnd[i] && e > hStart[i]) {
          out.add(blockOf[hPc[i]]);
        }
      }
      succ[b] = out.stream().distinct().mapToInt(Integer::intValue).toArray();
    }
    new Wto(this, succ, nb);
  }

  /** Bourdoncle's weak topological order. */
  private static final class Wto {
    final Meth m;
    final int[][] succ;
    final int[] dfn;
    int num;
    final java.util.ArrayDeque<Integer> stack = new java.util.ArrayDeque<>();

    static final class El {
      int v;
      List<El> comp; // null for a plain vertex
    }

    Wto(Meth m, int[][] succ, int nb) {
      this.m = m;
      this.succ = succ;
      dfn = new int[nb];
      List<El> part = new java.util.LinkedList<>();
      visit(0, part);
      m.path = new int[nb][];
      m.comps = new int[nb][];
      m.headComp = new int[nb];
      Arrays.fill(m.headComp, -1);
      assign(part, new int[0], new int[0]);
      for (int b = 0; b < nb; b++) { // unreachable blocks
        if (m.path[b] == null) {
          m.path[b] = new int[] {1000000 + b};
          m.comps[b] = new int[0];
        }
      }
    }

    void assign(List<El> part, int[] prefix, int[] comps) {
      int i = prefix.length == 0 ? 0 : 1;
      for (El e : part) {
        int[] p = Arrays.copyOf(prefix, prefix.length + 1);
        p[prefix.length] = i++;
        if (e.comp == null) {
          m.path[e.v] = p;
          m.comps[e.v] = comps;
        } else {
          int c = m.nComps++;
          int[] cs = Arrays.copyOf(comps, comps.length + 1);
          cs[comps.length] = c;
          int[] hp = Arrays.copyOf(p, p.length + 1);
          hp[p.length] = 0;
          m.path[e.v] = hp;
          m.comps[e.v] = cs;
          m.headComp[e.v] = c;
          assign(e.comp, p, cs);
        }
      }
    }

    int visit(int v, List<El> part) {
      stack.push(v);
      dfn[v] = ++num;
      int head = num;
      boolean loop = false;
      for (int w : succ[v]) {
        int min = dfn[w] == 0 ? visit(w, part) : dfn[w];
        if (min <= head) {
          head = min;
          loop = true;
        }
      }
      if (head == dfn[v]) {
        dfn[v] = Integer.MAX_VALUE;
        int e = stack.pop();
        El el = new El();
        el.v = v;
        if (loop) {
          while (e != v) {
            dfn[e] = 0;
            e = stack.pop();
          }
          List<El> sub = new java.util.LinkedList<>();
          for (int w : succ[v]) {
            if (dfn[w] == 0) {
              visit(w, sub);
            }
          }
          el.comp = sub;
        }
        part.add(0, el);
      }
      return head;
    }
  }
}
