package symvm;

import java.util.ArrayList;
import java.util.HashMap;
import java.util.LinkedHashMap;
import java.util.List;
import java.util.Map;
import org.objectweb.asm.Opcodes;
import org.objectweb.asm.tree.ClassNode;

/** Runtime class of one VM instance. */
final class Cls {
  final String name;           // internal name, or array descriptor
  final ClassNode node;        // null for arrays and primitives
  Cls sup;
  final List<Cls> ifaces = new ArrayList<>();
  final String elem;           // element descriptor for arrays
  final Map<String, Meth> methods = new LinkedHashMap<>();
  final Map<String, Fld> fields = new LinkedHashMap<>(); // declared
  int nInstance;
  final List<Fld> instanceFields = new ArrayList<>();
  int nStatic;
  int staticsId;
  int classObjId;
  int initState; // 0 no, 1 running, 2 done
  final Map<String, Meth> vcache = new HashMap<>();
  final Map<Cls, Boolean> subCache = new HashMap<>();
  boolean repo;

  Cls(String name, ClassNode node, String elem) {
    this.name = name;
    this.node = node;
    this.elem = elem;
  }

  boolean isArray() {
    return elem != null;
  }

  boolean isInterface() {
    return node != null && (node.access & Opcodes.ACC_INTERFACE) != 0;
  }

  boolean isAbstract() {
    return node != null && (node.access & Opcodes.ACC_ABSTRACT) != 0;
  }

  String javaName() {
    return name.replace('/', '.');
  }

  @Override
  public String toString() {
    return name;
  }
}

final class Fld {
  final Cls owner;
  final String name, desc;
  final boolean isStatic, isFinal;
  final int idx;

  Fld(Cls owner, String name, String desc, boolean isStatic, boolean isFinal, int idx) {
    this.owner = owner;
    this.name = name;
    this.desc = desc;
    this.isStatic = isStatic;
    this.isFinal = isFinal;
    this.idx = idx;
  }
}
