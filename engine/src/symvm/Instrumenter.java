package symvm;

import java.util.ArrayList;
import java.util.HashMap;
import java.util.HashSet;
import java.util.List;
import java.util.Map;
import java.util.Set;
import java.util.function.UnaryOperator;
import org.objectweb.asm.ClassReader;
import org.objectweb.asm.ClassWriter;
import org.objectweb.asm.Handle;
import org.objectweb.asm.Opcodes;
import org.objectweb.asm.Type;
import org.objectweb.asm.tree.AbstractInsnNode;
import org.objectweb.asm.tree.ClassNode;
import org.objectweb.asm.tree.FieldInsnNode;
import org.objectweb.asm.tree.FieldNode;
import org.objectweb.asm.tree.InsnList;
import org.objectweb.asm.tree.InsnNode;
import org.objectweb.asm.tree.InvokeDynamicInsnNode;
import org.objectweb.asm.tree.LabelNode;
import org.objectweb.asm.tree.LdcInsnNode;
import org.objectweb.asm.tree.MethodInsnNode;
import org.objectweb.asm.tree.MethodNode;
import org.objectweb.asm.tree.MultiANewArrayInsnNode;
import org.objectweb.asm.tree.TryCatchBlockNode;
import org.objectweb.asm.tree.TypeInsnNode;
import org.objectweb.asm.tree.VarInsnNode;

/**
 * Makes the scheduling points of the code under test explicit and redirects threads, executors, latches and
 * loggers to the verif.rt runtime. The same instrumented classes are executed symbolically and replayed natively.
 */
final class Instrumenter implements Opcodes {
  private static final Map<String, String> MAP = new HashMap<>();

  static {
    MAP.put("java/util/concurrent/CountDownLatch", "verif/rt/VLatch");
    MAP.put("java/util/concurrent/Executors", "verif/rt/VExecutors");
    MAP.put("java/util/concurrent/locks/ReentrantLock", "verif/rt/VReentrantLock");
    String j = "java/util/concurrent/";
    String v = "verif/rt/V";
    MAP.put("java/util/ArrayDeque", "verif/lib/VArrayDeque");
    MAP.put("java/util/LinkedList", "verif/lib/VLinkedList");
    MAP.put(j + "Semaphore", v + "Semaphore");
    MAP.put(j + "locks/ReentrantReadWriteLock", v + "ReadWriteLock");
    MAP.put(j + "locks/ReentrantReadWriteLock$ReadLock", v + "ReadWriteLock$ReadLock");
    MAP.put(j + "locks/ReentrantReadWriteLock$WriteLock", v + "ReadWriteLock$WriteLock");
    MAP.put(j + "locks/StampedLock", v + "StampedLock");
    MAP.put(j + "FutureTask", v + "FutureTask");
    MAP.put(j + "CompletableFuture", v + "CompletableFuture");
    MAP.put(j + "LinkedBlockingQueue", v + "BlockingQueue");
    MAP.put(j + "LinkedBlockingDeque", v + "BlockingQueue");
    MAP.put(j + "ArrayBlockingQueue", v + "BlockingQueue");
    MAP.put(j + "SynchronousQueue", v + "SynchronousQueue");
    MAP.put(j + "ThreadPoolExecutor", v + "ThreadPool");
    MAP.put(j + "ThreadPoolExecutor$AbortPolicy", v + "ThreadPool$AbortPolicy");
    MAP.put(j + "ThreadPoolExecutor$CallerRunsPolicy", v + "ThreadPool$CallerRunsPolicy");
    MAP.put(j + "ThreadPoolExecutor$DiscardPolicy", v + "ThreadPool$DiscardPolicy");
    MAP.put(j + "RejectedExecutionHandler", v + "ThreadPool$Rejection");
    MAP.put(j + "LinkedTransferQueue", v + "BlockingQueue");
    MAP.put(j + "locks/LockSupport", v + "LockSupport");
    MAP.put(j + "ForkJoinPool", v + "ForkJoin");
    MAP.put(j + "ScheduledThreadPoolExecutor", v + "Scheduled");
    MAP.put("org/apache/logging/log4j/Logger", "verif/rt/VLogger");
    MAP.put("org/apache/logging/log4j/LogManager", "verif/rt/VLogManager");
    MAP.put("org/apache/logging/log4j/util/Supplier", "java/util/function/Supplier");
  }

  private static final String SCHED = "verif/rt/Sched";
  private static final String MON = "verif/rt/VMon";
  private final Map<String, ClassNode> repo = new HashMap<>();
  private final Set<String> finals = new HashSet<>();

  private static String name(String n) {
    if (n == null) {
      return null;
    }
    if (n.startsWith("[")) {
      return desc(n);
    }
    return MAP.getOrDefault(n, n);
  }

  private static String desc(String d) {
    if (d == null) {
      return null;
    }
    for (Map.Entry<String, String> e : MAP.entrySet()) {
      d = d.replace("L" + e.getKey() + ";", "L" + e.getValue() + ";");
    }
    return d;
  }

  private static Object cst(Object o) {
    if (o instanceof Type) {
      return Type.getType(desc(((Type) o).getDescriptor()));
    }
    if (o instanceof Handle) {
      Handle h = (Handle) o;
      return new Handle(h.getTag(), name(h.getOwner()), h.getName(), desc(h.getDesc()), h.isInterface());
    }
    return o;
  }

  static List<String> lastSites;

  static Map<String, byte[]> run(Map<String, byte[]> in) {
    Instrumenter me = new Instrumenter();
    for (Map.Entry<String, byte[]> e : in.entrySet()) {
      ClassNode n = new ClassNode();
      new ClassReader(e.getValue()).accept(n, ClassReader.SKIP_FRAMES);
      me.repo.put(n.name, n);
      for (FieldNode f : n.fields) {
        if ((f.access & ACC_FINAL) != 0) {
          me.finals.add(n.name + "." + f.name);
        }
      }
    }
    Map<String, byte[]> out = new HashMap<>();
    for (ClassNode n : new java.util.TreeMap<>(me.repo).values()) {
      me.instrument(n);
      ClassWriter w = new ClassWriter(ClassWriter.COMPUTE_MAXS);
      n.accept(w);
      out.put(n.name, w.toByteArray());
    }
    lastSites = me.sites;
    return out;
  }

  private boolean isFinal(String owner, String field) {
    ClassNode n = repo.get(owner);
    while (n != null) {
      for (FieldNode f : n.fields) {
        if (f.name.equals(field)) {
          return (f.access & ACC_FINAL) != 0;
        }
      }
      n = repo.get(n.superName);
    }
    return true; // a library constant
  }

  private boolean isVolatile(String owner, String field) {
    for (ClassNode n = repo.get(owner); n != null; n = repo.get(n.superName)) {
      for (FieldNode f : n.fields) {
        if (f.name.equals(field)) {
          return (f.access & ACC_VOLATILE) != 0;
        }
      }
    }
    return false;
  }

  private ClassNode cn;
  private MethodNode cm;
  private final List<String> sites = new ArrayList<>();
  private static final Set<String> READS = Set.of("get", "isEmpty", "size", "contains", "containsKey", "peek",
      "getOrDefault", "containsValue", "iterator", "listIterator", "stream", "values", "keySet", "entrySet", "forEach",
      "spliterator", "hasNext", "next", "hasPrevious", "previous", "getKey", "getValue", "toArray", "getPlain",
      "getAcquire", "intValue", "equals", "hashCode", "toString", "element", "anyMatch", "indexOf", "getFirst",
      "containsAll", "copyOf", "getCount", "isLocked", "peekFirst", "longValue", "lastIndexOf", "subList",
      "descendingIterator", "parallelStream", "removeIf$never");

  /** A numbered scheduling site; the explorer decides which of them are scheduling points. */
  private int site(String what) {
    sites.add(cn.name + "." + cm.name + cm.desc + " " + what);
    return sites.size() - 1;
  }

  private static void access(InsnList il, int site, boolean write, String loc) {
    access(il, site, write ? 1 : 0, loc);
  }

  /** Bits: 1 write, 2 harmless even if unsynchronised, 4 an atomic, 8 an atomic accessed without its guarantees. */
  private static int bits(String owner, String name) {
    return (READS.contains(name) ? 0 : 1) + (owner.startsWith("java/util/concurrent/atomic/Atomic")
        ? name.equals("getPlain") || name.equals("setPlain") ? 12 : 4 : 0);
  }

  private static void access(InsnList il, int site, int bits, String loc) {
    il.add(new LdcInsnNode(site));
    il.add(new LdcInsnNode(bits));
    il.add(new LdcInsnNode(loc));
    il.add(new MethodInsnNode(INVOKESTATIC, SCHED, "access", "(Ljava/lang/Object;IILjava/lang/String;)V", false));
  }
  private final List<MethodNode> extra = new ArrayList<>();
  private int wrappers;

  private void instrument(ClassNode n) {
    cn = n;
    extra.clear();
    wrappers = 0;
    n.superName = name(n.superName);
    n.interfaces.replaceAll(Instrumenter::name);
    n.signature = null;
    for (FieldNode f : n.fields) {
      f.desc = desc(f.desc);
      f.signature = null;
    }
    List<MethodNode> sync = new ArrayList<>();
    for (MethodNode m : n.methods) {
      m.desc = desc(m.desc);
      m.signature = null;
      m.localVariables = null;
      m.exceptions.replaceAll(Instrumenter::name);
      for (TryCatchBlockNode t : m.tryCatchBlocks) {
        t.type = name(t.type);
      }
      code(m);
      if ((m.access & ACC_SYNCHRONIZED) != 0) {
        sync.add(m);
      }
    }
    for (MethodNode m : sync) {
      wrapSync(m);
    }
    n.methods.addAll(extra);
  }

  private boolean pointed(String owner, String m) {
    if (owner.equals("verif/rt/VBlockingQueue")) {
      return true;
    }
    if (!owner.startsWith("java/util/")) {
      return false;
    }
    String r = owner.substring(10);
    if (r.startsWith("function/") || r.startsWith("stream/") || r.startsWith("logging/") || r.startsWith("regex/")) {
      return false;
    }
    switch (r) {
      case "StringJoiner":
      case "Objects":
      case "Arrays":
      case "Optional":
      case "Collections":
      case "concurrent/TimeUnit":
      case "concurrent/Executor":
      case "concurrent/ExecutorService":
      case "concurrent/ThreadFactory":
      case "concurrent/Future":
      case "concurrent/RunnableFuture":
      case "concurrent/locks/Lock":
      case "concurrent/locks/ReadWriteLock":
      case "concurrent/locks/Condition":
      case "concurrent/ScheduledExecutorService":
        return false;
      default:
        return true;
    }
  }

  /** Static method doing a scheduling point for its receiver and then the call. */
  private String wrapper(int op, String owner, String name, String d, boolean itf) {
    String w = "pt$" + wrappers++;
    MethodNode m = new MethodNode(ACC_STATIC | ACC_SYNTHETIC | ACC_PRIVATE, w, wrapDesc(owner, d), null, null);
    if ((cn.access & ACC_INTERFACE) != 0) {
      m.access = ACC_STATIC | ACC_SYNTHETIC | ACC_PUBLIC;
    }
    InsnList il = m.instructions;
    il.add(new VarInsnNode(ALOAD, 0));
    access(il, site(owner + "." + name), bits(owner, name), "");
    int i = 0;
    for (Type t : Type.getArgumentTypes(m.desc)) {
      il.add(new VarInsnNode(t.getOpcode(ILOAD), i));
      i += t.getSize();
    }
    il.add(new MethodInsnNode(op, owner, name, d, itf));
    il.add(new InsnNode(Type.getReturnType(d).getOpcode(IRETURN)));
    extra.add(m);
    return w;
  }

  private static String wrapDesc(String owner, String d) {
    return "(" + (owner.startsWith("[") ? owner : "L" + owner + ";") + d.substring(1);
  }

  private void code(MethodNode m) {
    if (m.instructions == null || m.instructions.size() == 0) {
      return;
    }
    cm = m;
    boolean init = m.name.equals("<init>") || m.name.equals("<clinit>");
    boolean itf = (cn.access & ACC_INTERFACE) != 0;
    for (AbstractInsnNode in : m.instructions.toArray()) {
      switch (in.getOpcode()) {
        case GETFIELD:
        case PUTFIELD:
        case GETSTATIC:
        case PUTSTATIC: {
          FieldInsnNode f = (FieldInsnNode) in;
          boolean shared = repo.containsKey(f.owner) && !isFinal(f.owner, f.name) && !init;
          boolean isStatic = in.getOpcode() == GETSTATIC || in.getOpcode() == PUTSTATIC;
          boolean wide = !isStatic && Type.getType(f.desc).getSize() == 2;
          String loc = f.owner + "." + f.name
              + (isVolatile(f.owner, f.name) ? "#v" : isStatic ? "#s" : wide ? "#w" : "");
          f.owner = name(f.owner);
          f.desc = desc(f.desc);
          if (shared) {
            InsnList il = new InsnList();
            boolean write = in.getOpcode() == PUTFIELD || in.getOpcode() == PUTSTATIC;
            if (in.getOpcode() == GETFIELD && !wide) {
              il.add(new InsnNode(DUP));
            } else if (in.getOpcode() == PUTFIELD && !wide) {
              il.add(new InsnNode(DUP2));
              il.add(new InsnNode(POP));
            } else {
              il.add(new InsnNode(ACONST_NULL)); // static, or any instance
            }
            // a value computed once and kept in hashCode or toString may be computed twice, which is harmless
            access(il, site(write ? "write " + f.name : "read " + f.name), (write ? 1 : 0)
                + (m.name.equals("hashCode") || m.name.equals("toString") ? 2 : 0), loc);
            m.instructions.insertBefore(in, il);
          }
          break;
        }
        case AALOAD:
        case AASTORE: {
          if (!init) {
            InsnList il = new InsnList();
            boolean write = in.getOpcode() == AASTORE;
            if (write) {
              il.add(new InsnNode(DUP_X2));
              il.add(new InsnNode(POP));
              il.add(new InsnNode(DUP2_X1));
            } else {
              il.add(new InsnNode(DUP2));
            }
            il.add(new InsnNode(POP));
            access(il, site(write ? "write element" : "read element"), write, "[]");
            m.instructions.insertBefore(in, il);
          }
          break;
        }
        case MONITORENTER: {
          InsnList il = new InsnList();
          il.add(new LdcInsnNode(site("lock")));
          m.instructions.insertBefore(in, il);
          m.instructions.set(in, new MethodInsnNode(INVOKESTATIC, SCHED, "lock", "(Ljava/lang/Object;I)V", false));
          break;
        }
        case MONITOREXIT:
          m.instructions.set(in, new MethodInsnNode(INVOKESTATIC, SCHED, "unlock", "(Ljava/lang/Object;)V", false));
          break;
        case NEW:
        case CHECKCAST:
        case INSTANCEOF:
        case ANEWARRAY:
          ((TypeInsnNode) in).desc = name(((TypeInsnNode) in).desc);
          break;
        case MULTIANEWARRAY:
          ((MultiANewArrayInsnNode) in).desc = desc(((MultiANewArrayInsnNode) in).desc);
          break;
        case LDC:
          ((LdcInsnNode) in).cst = cst(((LdcInsnNode) in).cst);
          break;
        case INVOKEDYNAMIC: {
          InvokeDynamicInsnNode d = (InvokeDynamicInsnNode) in;
          d.desc = desc(d.desc);
          for (int i = 0; i < d.bsmArgs.length; i++) {
            Object a = cst(d.bsmArgs[i]);
            if (a instanceof Handle) {
              Handle h = (Handle) a;
              int op = h.getTag() == H_INVOKEINTERFACE ? INVOKEINTERFACE : h.getTag() == H_INVOKEVIRTUAL
                  ? INVOKEVIRTUAL : 0;
              if (op != 0 && pointed(h.getOwner(), h.getName())) {
                String w = wrapper(op, h.getOwner(), h.getName(), h.getDesc(), h.isInterface());
                a = new Handle(H_INVOKESTATIC, cn.name, w, wrapDesc(h.getOwner(), h.getDesc()), itf);
              }
            }
            d.bsmArgs[i] = a;
          }
          break;
        }
        case INVOKEVIRTUAL:
        case INVOKEINTERFACE:
        case INVOKESTATIC:
        case INVOKESPECIAL: {
          MethodInsnNode c = (MethodInsnNode) in;
          boolean thread = c.owner.equals("java/lang/Thread") || isThread(c.owner);
          c.owner = name(c.owner);
          c.desc = desc(c.desc);
          if (thread && c.name.equals("start") && c.desc.equals("()V")) {
            m.instructions.set(in, new MethodInsnNode(INVOKESTATIC, SCHED, "startRaw", "(Ljava/lang/Thread;)V",
                false));
          } else if (thread && c.name.equals("sleep") && c.desc.equals("(J)V")) {
            m.instructions.set(in, new MethodInsnNode(INVOKESTATIC, MON, "sleep", "(J)V", false));
          } else if (thread && (c.name.equals("yield") || c.name.equals("onSpinWait"))) {
            m.instructions.set(in, new MethodInsnNode(INVOKESTATIC, SCHED, "point", "()V", false));
          } else if (thread && c.name.equals("sleep") && c.desc.equals("(JI)V")) {
            m.instructions.set(in, new MethodInsnNode(INVOKESTATIC, MON, "sleep", "(JI)V", false));
          } else if (c.owner.equals("java/util/concurrent/TimeUnit") && c.name.equals("sleep")) {
            m.instructions.set(in, new MethodInsnNode(INVOKESTATIC, MON, "sleep",
                "(Ljava/util/concurrent/TimeUnit;J)V", false));
          } else if (thread && c.name.equals("join") && (c.desc.equals("()V") || c.desc.equals("(J)V"))) {
            m.instructions.set(in, new MethodInsnNode(INVOKESTATIC, MON, "join", "(Ljava/lang/Thread;"
                + c.desc.substring(1), false));
          } else if (thread && c.name.equals("isAlive")) {
            m.instructions.set(in, new MethodInsnNode(INVOKESTATIC, SCHED, "isAlive", "(Ljava/lang/Thread;)Z", false));
          } else if (thread && c.name.equals("interrupt") && c.desc.equals("()V")) {
            m.instructions.insertBefore(in, new MethodInsnNode(INVOKESTATIC, SCHED, "point", "()V", false));
            m.instructions.set(in, new MethodInsnNode(INVOKESTATIC, SCHED, "interrupt", "(Ljava/lang/Thread;)V", false));
          } else if (thread && c.name.equals("isInterrupted")) {
            m.instructions.set(in, new MethodInsnNode(INVOKESTATIC, SCHED, "isInterrupted", "(Ljava/lang/Thread;)Z",
                false));
          } else if (thread && c.name.equals("interrupted")) {
            m.instructions.set(in, new MethodInsnNode(INVOKESTATIC, SCHED, "interrupted", "()Z", false));
          } else if (thread && c.name.equals("holdsLock")) {
            m.instructions.set(in, new MethodInsnNode(INVOKESTATIC, SCHED, "holdsLock", "(Ljava/lang/Object;)Z",
                false));
          } else if (c.name.equals("wait") && (c.desc.equals("()V") || c.desc.equals("(J)V"))) {
            m.instructions.set(in, new MethodInsnNode(INVOKESTATIC, MON, "await", "(Ljava/lang/Object;"
                + c.desc.substring(1), false));
          } else if (c.name.equals("forEach") && c.owner.equals("java/util/stream/Stream")) {
            m.instructions.set(in, new MethodInsnNode(INVOKESTATIC, "verif/rt/Par", "forEach",
                "(Ljava/util/stream/Stream;Ljava/util/function/Consumer;)V", false));
          } else if (c.name.equals("notify") && c.desc.equals("()V")) {
            m.instructions.set(in, new MethodInsnNode(INVOKESTATIC, MON, "notifyOne", "(Ljava/lang/Object;)V", false));
          } else if (c.name.equals("notifyAll") && c.desc.equals("()V")) {
            m.instructions.set(in, new MethodInsnNode(INVOKESTATIC, MON, "notifyEvery", "(Ljava/lang/Object;)V",
                false));
          } else if ((in.getOpcode() == INVOKEVIRTUAL || in.getOpcode() == INVOKEINTERFACE)
              && pointed(c.owner, c.name)) {
            if (c.desc.startsWith("()")) {
              InsnList il = new InsnList();
              il.add(new InsnNode(DUP));
              access(il, site(c.owner + "." + c.name), bits(c.owner, c.name), "");
              m.instructions.insertBefore(in, il);
            } else {
              String w = wrapper(in.getOpcode(), c.owner, c.name, c.desc, c.itf);
              m.instructions.set(in, new MethodInsnNode(INVOKESTATIC, cn.name, w, wrapDesc(c.owner, c.desc), itf));
            }
          }
          break;
        }
        default:
      }
    }
  }

  private boolean isThread(String o) {
    ClassNode n = repo.get(o);
    while (n != null) {
      if ("java/lang/Thread".equals(n.superName)) {
        return true;
      }
      n = repo.get(n.superName);
    }
    return false;
  }

  private void wrapSync(MethodNode m) {
    boolean st = (m.access & ACC_STATIC) != 0;
    MethodNode w = new MethodNode(m.access & ~ACC_SYNCHRONIZED, m.name, m.desc, null,
        m.exceptions.toArray(new String[0]));
    m.name = m.name + "$sync";
    m.access = ACC_PRIVATE | ACC_SYNTHETIC | (st ? ACC_STATIC : 0);
    InsnList il = w.instructions;
    UnaryOperator<InsnList> self = l -> {
      l.add(st ? new LdcInsnNode(Type.getObjectType(cn.name)) : new VarInsnNode(ALOAD, 0));
      return l;
    };
    self.apply(il);
    cm = w;
    il.add(new LdcInsnNode(site("lock")));
    il.add(new MethodInsnNode(INVOKESTATIC, SCHED, "lock", "(Ljava/lang/Object;I)V", false));
    LabelNode a = new LabelNode(), b = new LabelNode(), h = new LabelNode();
    il.add(a);
    int i = 0;
    if (!st) {
      il.add(new VarInsnNode(ALOAD, i++));
    }
    for (Type t : Type.getArgumentTypes(m.desc)) {
      il.add(new VarInsnNode(t.getOpcode(ILOAD), i));
      i += t.getSize();
    }
    il.add(new MethodInsnNode(st ? INVOKESTATIC : INVOKESPECIAL, cn.name, m.name, m.desc,
        (cn.access & ACC_INTERFACE) != 0));
    il.add(b);
    self.apply(il);
    il.add(new MethodInsnNode(INVOKESTATIC, SCHED, "unlock", "(Ljava/lang/Object;)V", false));
    il.add(new InsnNode(Type.getReturnType(m.desc).getOpcode(IRETURN)));
    il.add(h);
    self.apply(il);
    il.add(new MethodInsnNode(INVOKESTATIC, SCHED, "unlock", "(Ljava/lang/Object;)V", false));
    il.add(new InsnNode(ATHROW));
    w.tryCatchBlocks.add(new TryCatchBlockNode(a, b, h, null));
    extra.add(w);
  }
}
