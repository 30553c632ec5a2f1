package symvm;

import java.io.IOException;
import java.io.InputStream;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.ArrayList;
import java.util.List;
import java.util.Map;
import java.util.concurrent.ConcurrentHashMap;
import org.objectweb.asm.ClassReader;
import org.objectweb.asm.Handle;
import org.objectweb.asm.Opcodes;
import org.objectweb.asm.Type;
import org.objectweb.asm.tree.AbstractInsnNode;
import org.objectweb.asm.tree.ClassNode;
import org.objectweb.asm.tree.FieldInsnNode;
import org.objectweb.asm.tree.FieldNode;
import org.objectweb.asm.tree.InsnList;
import org.objectweb.asm.tree.InsnNode;
import org.objectweb.asm.tree.InvokeDynamicInsnNode;
import org.objectweb.asm.tree.LdcInsnNode;
import org.objectweb.asm.tree.MethodInsnNode;
import org.objectweb.asm.tree.MethodNode;
import org.objectweb.asm.tree.TypeInsnNode;
import org.objectweb.asm.tree.VarInsnNode;

/** Reads class files (user classes, library models, then the running JDK's own classes) and desugars
 * invokedynamic (lambdas, string concatenation, record methods) into plain bytecode. */
final class Loader implements Opcodes {
  private final Map<String, byte[]> user;
  private final Path models;
  private final Map<String, ClassNode> nodes = new ConcurrentHashMap<>();
  final java.util.Set<String> modelled = ConcurrentHashMap.newKeySet();

  Loader(Map<String, byte[]> user, Path models) {
    this.user = user;
    this.models = models;
  }

  ClassNode get(String name) {
    ClassNode n = nodes.get(name);
    if (n != null) {
      return n;
    }
    synchronized (this) {
      n = nodes.get(name);
      if (n != null) {
        return n;
      }
      byte[] b = bytes(name);
      if (b == null) {
        return null;
      }
      n = new ClassNode();
      new ClassReader(b).accept(n, ClassReader.SKIP_FRAMES);
      nodes.put(name, desugar(n));
      return n;
    }
  }

  private byte[] bytes(String name) {
    byte[] b = user.get(name);
    if (b != null) {
      return b;
    }
    try {
      Path p = models.resolve(name + ".class");
      if (Files.exists(p)) {
        modelled.add(name);
        return Files.readAllBytes(p);
      }
      try (InputStream in = ClassLoader.getSystemResourceAsStream(name + ".class")) {
        return in == null ? null : in.readAllBytes();
      }
    } catch (IOException e) {
      throw new Unsupported("reading " + name, e);
    }
  }

  private ClassNode desugar(ClassNode cn) {
    int k = 0;
    List<MethodNode> extra = new ArrayList<>();
    for (MethodNode mn : cn.methods) {
      if (mn.instructions == null) {
        continue;
      }
      for (AbstractInsnNode in : mn.instructions.toArray()) {
        if (in.getOpcode() != INVOKEDYNAMIC) {
          continue;
        }
        InvokeDynamicInsnNode d = (InvokeDynamicInsnNode) in;
        String bo = d.bsm.getOwner();
        if (bo.equals("java/lang/invoke/LambdaMetafactory")) {
          String ln = cn.name + "$$L" + k++;
          ClassNode l = lambda(ln, d);
          nodes.put(ln, l);
          mn.instructions.set(in, new MethodInsnNode(INVOKESTATIC, ln, "make$", d.desc, false));
        } else if (bo.equals("java/lang/invoke/StringConcatFactory")) {
          String nm = "concat$$" + k++;
          extra.add(concat(nm, d));
          mn.instructions.set(in, new MethodInsnNode(INVOKESTATIC, cn.name, nm, d.desc,
              (cn.access & ACC_INTERFACE) != 0));
        } else if (bo.equals("java/lang/runtime/ObjectMethods")) {
          String nm = "rec$$" + k++;
          extra.add(record(cn, nm, d));
          mn.instructions.set(in, new MethodInsnNode(INVOKESTATIC, cn.name, nm, d.desc, false));
        } else {
          mn.instructions.insertBefore(in, new LdcInsnNode("invokedynamic " + bo));
          mn.instructions.insertBefore(in, new MethodInsnNode(INVOKESTATIC, "symvm/Unsup", "unsupported",
              "(Ljava/lang/String;)V", false));
          mn.instructions.set(in, new InsnNode(ACONST_NULL));
        }
      }
    }
    cn.methods.addAll(extra);
    return cn;
  }

  private static void loadArgs(InsnList il, Type[] ts) {
    int i = 0;
    for (Type t : ts) {
      il.add(new VarInsnNode(t.getOpcode(ILOAD), i));
      i += t.getSize();
    }
  }

  private MethodNode concat(String name, InvokeDynamicInsnNode d) {
    Type[] ts = Type.getArgumentTypes(d.desc);
    MethodNode m = new MethodNode(ACC_STATIC | ACC_SYNTHETIC, name, d.desc, null, null);
    InsnList il = m.instructions;
    String recipe;
    List<Object> consts = new ArrayList<>();
    if (d.name.equals("makeConcatWithConstants")) {
      recipe = (String) d.bsmArgs[0];
      for (int i = 1; i < d.bsmArgs.length; i++) {
        consts.add(d.bsmArgs[i]);
      }
    } else {
      recipe = "\1".repeat(ts.length);
    }
    String sb = "java/lang/StringBuilder";
    il.add(new TypeInsnNode(NEW, sb));
    il.add(new InsnNode(DUP));
    il.add(new MethodInsnNode(INVOKESPECIAL, sb, "<init>", "()V", false));
    int arg = 0, slot = 0, ci = 0;
    StringBuilder lit = new StringBuilder();
    for (int i = 0; i <= recipe.length(); i++) {
      char c = i < recipe.length() ? recipe.charAt(i) : 1;
      if (i < recipe.length() && c != 1 && c != 2) {
        lit.append(c);
        continue;
      }
      if (i < recipe.length() && c == 2) {
        lit.append(consts.get(ci++));
        continue;
      }
      if (lit.length() > 0) {
        il.add(new LdcInsnNode(lit.toString()));
        il.add(new MethodInsnNode(INVOKEVIRTUAL, sb, "append",
            "(Ljava/lang/String;)Ljava/lang/StringBuilder;", false));
        lit.setLength(0);
      }
      if (i < recipe.length()) {
        Type t = ts[arg++];
        il.add(new VarInsnNode(t.getOpcode(ILOAD), slot));
        slot += t.getSize();
        String p = t.getSort() == Type.OBJECT || t.getSort() == Type.ARRAY
            ? (t.getDescriptor().equals("Ljava/lang/String;") ? "Ljava/lang/String;" : "Ljava/lang/Object;")
            : t.getSort() == Type.BYTE || t.getSort() == Type.SHORT ? "I" : t.getDescriptor();
        il.add(new MethodInsnNode(INVOKEVIRTUAL, sb, "append", "(" + p + ")Ljava/lang/StringBuilder;", false));
      }
    }
    il.add(new MethodInsnNode(INVOKEVIRTUAL, sb, "toString", "()Ljava/lang/String;", false));
    il.add(new InsnNode(ARETURN));
    m.maxLocals = slot;
    m.maxStack = 4;
    return m;
  }

  private MethodNode record(ClassNode cn, String name, InvokeDynamicInsnNode d) {
    MethodNode m = new MethodNode(ACC_STATIC | ACC_SYNTHETIC, name, d.desc, null, null);
    InsnList il = m.instructions;
    List<Handle> getters = new ArrayList<>();
    for (int i = 2; i < d.bsmArgs.length; i++) {
      getters.add((Handle) d.bsmArgs[i]);
    }
    boolean eq = d.name.equals("equals");
    if (eq) {
      // instanceof, then Objects.equals on boxed components collected in arrays
      il.add(new VarInsnNode(ALOAD, 1));
      il.add(new TypeInsnNode(INSTANCEOF, cn.name));
      org.objectweb.asm.tree.LabelNode ok = new org.objectweb.asm.tree.LabelNode();
      il.add(new org.objectweb.asm.tree.JumpInsnNode(IFNE, ok));
      il.add(new InsnNode(ICONST_0));
      il.add(new InsnNode(IRETURN));
      il.add(ok);
      arr(il, cn, getters, 0);
      arr(il, cn, getters, 1);
      il.add(new MethodInsnNode(INVOKESTATIC, "java/util/Arrays", "equals",
          "([Ljava/lang/Object;[Ljava/lang/Object;)Z", false));
      il.add(new InsnNode(IRETURN));
    } else if (d.name.equals("hashCode")) {
      arr(il, cn, getters, 0);
      il.add(new MethodInsnNode(INVOKESTATIC, "java/util/Arrays", "hashCode", "([Ljava/lang/Object;)I", false));
      il.add(new InsnNode(IRETURN));
    } else {
      String nm = cn.name.substring(cn.name.lastIndexOf('/') + 1);
      nm = nm.substring(nm.lastIndexOf('$') + 1).replaceFirst("^[0-9]+", "");
      String sb = "java/lang/StringBuilder";
      il.add(new TypeInsnNode(NEW, sb));
      il.add(new InsnNode(DUP));
      il.add(new MethodInsnNode(INVOKESPECIAL, sb, "<init>", "()V", false));
      String sep = nm + "[";
      for (Handle h : getters) {
        il.add(new LdcInsnNode(sep + h.getName() + "="));
        il.add(new MethodInsnNode(INVOKEVIRTUAL, sb, "append",
            "(Ljava/lang/String;)Ljava/lang/StringBuilder;", false));
        il.add(new VarInsnNode(ALOAD, 0));
        il.add(new FieldInsnNode(GETFIELD, h.getOwner(), h.getName(), h.getDesc()));
        box(il, Type.getType(h.getDesc()));
        il.add(new MethodInsnNode(INVOKEVIRTUAL, sb, "append",
            "(Ljava/lang/Object;)Ljava/lang/StringBuilder;", false));
        sep = ", ";
      }
      il.add(new LdcInsnNode(getters.isEmpty() ? nm + "[]" : "]"));
      il.add(new MethodInsnNode(INVOKEVIRTUAL, sb, "append",
          "(Ljava/lang/String;)Ljava/lang/StringBuilder;", false));
      il.add(new MethodInsnNode(INVOKEVIRTUAL, sb, "toString", "()Ljava/lang/String;", false));
      il.add(new InsnNode(ARETURN));
    }
    m.maxLocals = 3;
    m.maxStack = 10;
    return m;
  }

  private void arr(InsnList il, ClassNode cn, List<Handle> getters, int local) {
    il.add(new org.objectweb.asm.tree.IntInsnNode(BIPUSH, getters.size()));
    il.add(new TypeInsnNode(ANEWARRAY, "java/lang/Object"));
    for (int i = 0; i < getters.size(); i++) {
      il.add(new InsnNode(DUP));
      il.add(new org.objectweb.asm.tree.IntInsnNode(BIPUSH, i));
      il.add(new VarInsnNode(ALOAD, local));
      il.add(new TypeInsnNode(CHECKCAST, cn.name));
      Handle h = getters.get(i);
      il.add(new FieldInsnNode(GETFIELD, h.getOwner(), h.getName(), h.getDesc()));
      box(il, Type.getType(h.getDesc()));
      il.add(new InsnNode(AASTORE));
    }
  }

  private static final String[][] BOX = {{"Z", "Boolean", "booleanValue"}, {"B", "Byte", "byteValue"},
      {"C", "Character", "charValue"}, {"S", "Short", "shortValue"}, {"I", "Integer", "intValue"},
      {"J", "Long", "longValue"}, {"F", "Float", "floatValue"}, {"D", "Double", "doubleValue"}};

  private static boolean prim(Type t) {
    return t.getSort() != Type.OBJECT && t.getSort() != Type.ARRAY && t.getSort() != Type.VOID;
  }

  private static void box(InsnList il, Type t) {
    if (!prim(t)) {
      return;
    }
    for (String[] b : BOX) {
      if (b[0].equals(t.getDescriptor())) {
        il.add(new MethodInsnNode(INVOKESTATIC, "java/lang/" + b[1], "valueOf",
            "(" + b[0] + ")Ljava/lang/" + b[1] + ";", false));
      }
    }
  }

  private static void unbox(InsnList il, Type t) {
    for (String[] b : BOX) {
      if (b[0].equals(t.getDescriptor())) {
        il.add(new TypeInsnNode(CHECKCAST, "java/lang/" + b[1]));
        il.add(new MethodInsnNode(INVOKEVIRTUAL, "java/lang/" + b[1], b[2], "()" + b[0], false));
      }
    }
  }

  private static void adapt(InsnList il, Type from, Type to) {
    if (to.getSort() == Type.VOID) {
      if (from.getSort() != Type.VOID) {
        il.add(new InsnNode(from.getSize() == 2 ? POP2 : POP));
      }
      return;
    }
    if (prim(from) && !prim(to)) {
      box(il, from);
    } else if (!prim(from) && prim(to)) {
      unbox(il, to);
    } else if (!prim(to)) {
      if (!to.getInternalName().equals("java/lang/Object")) {
        il.add(new TypeInsnNode(CHECKCAST, to.getInternalName()));
      }
    } else if (from.getSort() != to.getSort()) {
      int f = from.getSort(), t = to.getSort();
      boolean fi = f <= Type.INT;
      if (fi && t == Type.LONG) {
        il.add(new InsnNode(I2L));
      } else if (fi && t == Type.DOUBLE) {
        il.add(new InsnNode(I2D));
      } else if (fi && t == Type.FLOAT) {
        il.add(new InsnNode(I2F));
      } else if (f == Type.LONG && t == Type.DOUBLE) {
        il.add(new InsnNode(L2D));
      } else if (f == Type.FLOAT && t == Type.DOUBLE) {
        il.add(new InsnNode(F2D));
      } else if (!(fi && t <= Type.INT)) {
        throw new Unsupported("lambda conversion " + from + " to " + to);
      }
    }
  }

  private ClassNode lambda(String ln, InvokeDynamicInsnNode d) {
    ClassNode c = new ClassNode();
    c.version = V17;
    c.access = ACC_FINAL | ACC_SYNTHETIC;
    c.name = ln;
    c.superName = "java/lang/Object";
    Type[] caps = Type.getArgumentTypes(d.desc);
    c.interfaces.add(Type.getReturnType(d.desc).getInternalName());
    Type sam = (Type) d.bsmArgs[0];
    Handle impl = (Handle) d.bsmArgs[1];
    Type inst = (Type) d.bsmArgs[2];
    for (int i = 0; i < caps.length; i++) {
      c.fields.add(new FieldNode(ACC_FINAL, "c" + i, caps[i].getDescriptor(), null, null));
    }
    MethodNode init = new MethodNode(0, "<init>", "()V", null, null);
    init.instructions.add(new InsnNode(RETURN));
    init.maxLocals = 1;
    c.methods.add(init);
    MethodNode make = new MethodNode(ACC_STATIC, "make$", d.desc, null, null);
    InsnList il = make.instructions;
    il.add(new TypeInsnNode(NEW, ln));
    int slot = 0;
    for (int i = 0; i < caps.length; i++) {
      il.add(new InsnNode(DUP));
      il.add(new VarInsnNode(caps[i].getOpcode(ILOAD), slot));
      slot += caps[i].getSize();
      il.add(new FieldInsnNode(PUTFIELD, ln, "c" + i, caps[i].getDescriptor()));
    }
    il.add(new InsnNode(ARETURN));
    make.maxLocals = slot;
    make.maxStack = 5;
    c.methods.add(make);

    List<Type> descs = new ArrayList<>();
    descs.add(sam);
    if (d.bsm.getName().equals("altMetafactory") && d.bsmArgs.length > 3) {
      int flags = (Integer) d.bsmArgs[3];
      if ((flags & 1) != 0) { // FLAG_SERIALIZABLE
        c.interfaces.add("java/io/Serializable");
      }
      int p = 4;
      if ((flags & 2) != 0) { // FLAG_MARKERS
        int n = (Integer) d.bsmArgs[p++];
        for (int i = 0; i < n; i++) {
          c.interfaces.add(((Type) d.bsmArgs[p++]).getInternalName());
        }
      }
      if ((flags & 4) != 0) { // FLAG_BRIDGES
        int n = (Integer) d.bsmArgs[p++];
        for (int i = 0; i < n; i++) {
          descs.add((Type) d.bsmArgs[p++]);
        }
      }
    }
    for (Type samType : descs) {
      MethodNode m = new MethodNode(ACC_PUBLIC, d.name, samType.getDescriptor(), null, null);
      il = m.instructions;
      Type[] sp = samType.getArgumentTypes();
      Type[] ip = inst.getArgumentTypes();
      List<Type> target = new ArrayList<>();
      int tag = impl.getTag();
      if (tag == H_NEWINVOKESPECIAL) {
        il.add(new TypeInsnNode(NEW, impl.getOwner()));
        il.add(new InsnNode(DUP));
      } else if (tag != H_INVOKESTATIC) {
        target.add(Type.getObjectType(impl.getOwner()));
      }
      for (Type t : Type.getArgumentTypes(impl.getDesc())) {
        target.add(t);
      }
      int ti = 0;
      for (int i = 0; i < caps.length; i++) {
        il.add(new VarInsnNode(ALOAD, 0));
        il.add(new FieldInsnNode(GETFIELD, ln, "c" + i, caps[i].getDescriptor()));
        ti++;
      }
      slot = 1;
      for (int i = 0; i < sp.length; i++) {
        il.add(new VarInsnNode(sp[i].getOpcode(ILOAD), slot));
        slot += sp[i].getSize();
        Type t = target.get(ti++);
        if (!prim(sp[i]) && prim(ip[i])) {
          throw new Unsupported("lambda parameter shape");
        }
        if (!prim(sp[i]) && !ip[i].equals(sp[i])) {
          il.add(new TypeInsnNode(CHECKCAST, ip[i].getInternalName()));
          adaptPlain(il, ip[i], t);
        } else {
          adapt(il, sp[i], t);
        }
      }
      int opc = tag == H_INVOKESTATIC ? INVOKESTATIC : tag == H_INVOKEINTERFACE ? INVOKEINTERFACE
          : tag == H_INVOKEVIRTUAL ? INVOKEVIRTUAL : INVOKESPECIAL;
      il.add(new MethodInsnNode(opc, impl.getOwner(), impl.getName(), impl.getDesc(), impl.isInterface()));
      Type from = tag == H_NEWINVOKESPECIAL ? Type.getObjectType(impl.getOwner())
          : Type.getReturnType(impl.getDesc());
      Type to = samType.getReturnType();
      if (from.getSort() == Type.VOID && to.getSort() != Type.VOID) {
        throw new Unsupported("lambda return shape");
      }
      if (!prim(from) && !prim(to) && from.getSort() != Type.VOID && to.getSort() != Type.VOID) {
        // no cast needed
      } else {
        adapt(il, from, to);
      }
      il.add(new InsnNode(to.getOpcode(IRETURN)));
      m.maxLocals = slot;
      m.maxStack = slot + caps.length * 2 + 6;
      c.methods.add(m);
    }
    return c;
  }

  private static void adaptPlain(InsnList il, Type from, Type to) {
    if (prim(to)) {
      // from is a reference type: unbox according to its own box type, then widen
      for (String[] b : BOX) {
        if (from.getInternalName().equals("java/lang/" + b[1])) {
          unbox(il, Type.getType(b[0]));
          adapt(il, Type.getType(b[0]), to);
          return;
        }
      }
      unbox(il, to);
    }
  }
}
