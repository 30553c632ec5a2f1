package symvm;

import java.io.File;
import java.io.IOException;
import java.io.PrintStream;
import java.io.StringWriter;
import java.nio.file.Files;
import java.nio.file.Path;
import java.util.ArrayList;
import java.util.Arrays;
import java.util.HashMap;
import java.util.LinkedHashMap;
import java.util.LinkedHashSet;
import java.util.List;
import java.util.Map;
import java.util.Set;
import java.util.TreeMap;
import java.util.TreeSet;
import java.util.concurrent.ExecutorService;
import java.util.concurrent.Executors;
import java.util.concurrent.Future;
import java.util.concurrent.TimeUnit;
import java.util.stream.Collectors;
import java.util.stream.Stream;
import javax.tools.JavaCompiler;
import javax.tools.ToolProvider;
import org.objectweb.asm.ClassReader;
import org.objectweb.asm.tree.AnnotationNode;
import org.objectweb.asm.tree.ClassNode;
import org.objectweb.asm.tree.MethodNode;

/** Decides one property: compile, instrument, execute every harness symbolically, replay, report. */
public final class Main {
  static final class H {
    String cls, name, bounds;
    boolean quick = true, quickOnly, races;
    int steps = 400;
    List<String> covers = new ArrayList<>();
    // results
    String error;
    Explorer ex;
    Vm vm;
    long nanos;
    int rounds;
    Set<String> functions = new TreeSet<>();
    List<String> samples = new ArrayList<>();
    List<String> answers = new ArrayList<>();
  }

  final String id, tier;
  final Path verif, repo, tmp;
  final String only;
  final long t0 = System.nanoTime();
  final Map<String, byte[]> user = new HashMap<>();
  final List<String> problems = new ArrayList<>();
  Path inst, hdir;

  Main(String id, String tier, Path verif, Path repo, Path tmp, String only) {
    this.id = id;
    this.tier = tier;
    this.verif = verif;
    this.repo = repo;
    this.tmp = tmp;
    this.only = only;
  }

  public static void main(String[] a) throws Exception {
    Path verif = Path.of(System.getProperty("verif.home", "/verif"));
    Path repo = Path.of(System.getProperty("verif.repo", "/repo"));
    Path tmp = Files.createTempDirectory("verif-");
    int code = 2;
    try {
      code = new Main(a[0], a[1], verif, repo, tmp, a.length > 2 ? a[2] : null).run();
    } catch (Throwable t) {
      t.printStackTrace(System.out);
      System.out.println("CHECK-ERROR property=" + a[0] + " " + t);
    } finally {
      try (Stream<Path> s = Files.walk(tmp)) {
        List<Path> l = s.sorted((x, y) -> y.compareTo(x)).collect(Collectors.toList());
        for (Path p : l) {
          Files.deleteIfExists(p);
        }
      }
    }
    System.out.flush();
    Runtime.getRuntime().halt(code);
  }

  private static List<Path> files(Path dir, String ext) throws IOException {
    try (Stream<Path> s = Files.walk(dir)) {
      return s.filter(p -> p.toString().endsWith(ext)).sorted().collect(Collectors.toList());
    }
  }

  private void javac(List<Path> src, Path out, String cp, String sourcepath) throws IOException {
    Files.createDirectories(out);
    JavaCompiler c = ToolProvider.getSystemJavaCompiler();
    List<String> opts = new ArrayList<>(List.of("-g", "-nowarn", "-proc:none", "-Xlint:none", "-d", out.toString(),
        "-cp", cp, "--release", "17"));
    if (sourcepath != null) {
      opts.add("-sourcepath");
      opts.add(sourcepath);
    }
    StringWriter w = new StringWriter();
    try (javax.tools.StandardJavaFileManager fm = c.getStandardFileManager(null, null, null)) {
      Boolean ok = c.getTask(w, fm, null, opts, null, fm.getJavaFileObjectsFromPaths(src)).call();
      if (!ok) {
        throw new IOException("compilation failed:\n" + w);
      }
    }
  }

  private String log4j() throws IOException {
    Path m2 = Path.of("/root/.m2/repository/org/apache/logging/log4j/log4j-api");
    List<Path> l = files(m2, ".jar");
    return l.get(l.size() - 1).toString();
  }

  private void load(Path dir, Map<String, byte[]> into) throws IOException {
    for (Path p : files(dir, ".class")) {
      byte[] b = Files.readAllBytes(p);
      into.put(new ClassReader(b).getClassName(), b);
    }
  }

  int run() throws Exception {
    Path rc = tmp.resolve("repo");
    Path rt = verif.resolve("build/rt");
    String l4 = log4j();
    javac(files(repo.resolve("src/main/java"), ".java"), rc, l4, null);
    Map<String, byte[]> orig = new HashMap<>();
    load(rc, orig);
    load(verif.resolve("build/lib"), orig);
    Map<String, byte[]> instr = Instrumenter.run(orig);
    inst = tmp.resolve("inst");
    for (Map.Entry<String, byte[]> e : instr.entrySet()) {
      Path p = inst.resolve(e.getKey() + ".class");
      Files.createDirectories(p.getParent());
      Files.write(p, e.getValue());
    }
    hdir = tmp.resolve("h");
    Path hsrc = verif.resolve("harness/src");
    javac(List.of(hsrc.resolve("verif/h/" + id + ".java")), hdir, rc + ":" + rt + ":" + l4, hsrc.toString());
    load(rt, user);
    user.putAll(instr);
    load(hdir, user);

    List<H> hs = harnesses();
    long budget = Long.getLong("verif.budget", tier.equals("quick") ? 600L : 820L);
    long deadline = t0 + budget * 1_000_000_000L;
    ExecutorService pool = Executors.newFixedThreadPool(8, r -> {
      Thread t = new Thread(null, r, "vm", 1L << 30);
      t.setDaemon(true);
      return t;
    });
    List<Future<?>> fs = new ArrayList<>();
    for (H h : hs) {
      fs.add(pool.submit(() -> exec(h, deadline)));
    }
    for (Future<?> f : fs) {
      while (!f.isDone() && System.nanoTime() < Math.min(deadline, Vm.common) + 20_000_000_000L) {
        try {
          f.get(1, TimeUnit.SECONDS);
        } catch (java.util.concurrent.TimeoutException e) {
          continue;
        }
      }
      if (!f.isDone()) {
        problems.add("time budget exhausted");
        break;
      }
    }
    return report(hs);
  }

  private List<H> harnesses() {
    List<H> r = new ArrayList<>();
    ClassNode n = new ClassNode();
    String cn = "verif/h/" + id;
    new ClassReader(user.get(cn)).accept(n, ClassReader.SKIP_CODE);
    for (MethodNode m : n.methods) {
      List<AnnotationNode> as = new ArrayList<>();
      if (m.visibleAnnotations != null) {
        as.addAll(m.visibleAnnotations);
      }
      for (AnnotationNode an : as) {
        if (!an.desc.equals("Lverif/rt/Check;")) {
          continue;
        }
        H h = new H();
        h.cls = cn;
        h.name = m.name;
        for (int i = 0; an.values != null && i < an.values.size(); i += 2) {
          Object v = an.values.get(i + 1);
          switch ((String) an.values.get(i)) {
            case "quick":
              h.quick = (Boolean) v;
              break;
            case "quickOnly":
              h.quickOnly = (Boolean) v;
              break;
            case "races":
              h.races = (Boolean) v;
              break;
            case "steps":
              h.steps = (Integer) v;
              break;
            case "bounds":
              h.bounds = (String) v;
              break;
            default:
              for (Object o : (List<?>) v) {
                h.covers.add((String) o);
              }
          }
        }
        if (only != null && !Arrays.asList(only.split(",")).contains(h.name)) {
          continue;
        }
        if (only == null && tier.equals("quick") && !h.quick || only == null && !tier.equals("quick")
            && h.quickOnly) {
          continue;
        }
        r.add(h);
      }
    }
    return r;
  }

  private void exec(H h, long deadline) {
    long s = System.nanoTime();
    try {
      java.util.BitSet active = new java.util.BitSet();
      while (true) {
        Loader l = new Loader(user, verif.resolve("build/models"));
        Vm vm = new Vm(l, 120_000, "com/webotech/");
        vm.deadline = deadline;
        vm.smt.sampleEvery = tier.equals("quick") ? 0 : 97;
        h.vm = vm;
        Explorer ex = new Explorer(vm);
        ex.active = active;
        ex.stepBound = h.steps;
        ex.races = h.races;
        ex.known = known(h);
        vm.ex = ex;
        h.ex = ex;
        h.rounds++;
        Cls c = vm.cls(h.cls);
        ex.run(vm.findMethod(c, h.name + "()V"));
        for (Meth m : vm.executedRepo) {
          h.functions.add(m.sig());
        }
        // every conflicting access must be a scheduling point; violations found so far are real
        if (ex.stable() || ex.broken()) {
          break;
        }
        active = (java.util.BitSet) active.clone();
        active.or(ex.needed);
      }
    } catch (Unsupported u) {
      h.error = u.getMessage();
    } catch (StackOverflowError e) {
      h.error = "engine stack overflow";
    } catch (Throwable t) {
      StringWriter w = new StringWriter();
      t.printStackTrace(new java.io.PrintWriter(w));
      h.error = "engine failure " + w;
    }
    h.nanos = System.nanoTime() - s;
    if (h.vm != null) {
      h.samples.addAll(h.vm.smt.samples);
      h.answers.addAll(h.vm.smt.sampleAnswers);
    }
  }

  // ---------------------------------------------------------------- native replay

  private String values(Explorer ex, Map<String, Long> v) {
    StringBuilder sb = new StringBuilder("points=" + ex.active.toString().replaceAll("[{} ]", "") + "\n"
        + (ex.races ? "races=1\n" : ""));
    for (Map.Entry<String, Long> e : v.entrySet()) {
      sb.append(e.getKey()).append('=').append(e.getValue()).append('\n');
    }
    return sb.toString();
  }

  private String nativeRun(H h, String vals, int hash) throws Exception {
    Path f = Files.createTempFile(tmp, "v", ".txt");
    Files.writeString(f, vals);
    ProcessBuilder pb = new ProcessBuilder("java", "-XX:+UnlockDiagnosticVMOptions", "-XX:+UnlockExperimentalVMOptions", "-XX:hashCode=" + hash, "-Xshare:auto",
        "-XX:TieredStopAtLevel=1", "-XX:-BytecodeVerificationRemote", "-XX:-BytecodeVerificationLocal", "-cp",
        inst + ":" + hdir + ":" + verif.resolve("build/rt") + ":" + log4j(), "verif.rt.Replay",
        h.cls.replace('/', '.'), h.name, f.toString());
    pb.redirectErrorStream(true);
    Path out = Files.createTempFile(tmp, "o", ".txt");
    pb.redirectOutput(out.toFile());
    Process p = pb.start();
    if (!p.waitFor(70, TimeUnit.SECONDS)) {
      p.destroyForcibly();
    }
    return Files.readString(out);
  }

  private Map<String, Long> modelValues(H h, Model m) {
    Map<String, Long> r = new LinkedHashMap<>();
    for (int i = 0; i < h.vm.x.vars.size(); i++) {
      r.put(h.vm.x.vars.get(i).name, m.var(i));
    }
    return r;
  }

  private static final class Task {
    H h;
    String kind, label, values, out, detail;
    boolean ok;
  }

  private Set<String> known() throws IOException {
    Set<String> r = new LinkedHashSet<>();
    Path p = verif.resolve("known_findings.txt");
    if (Files.exists(p)) {
      for (String l : Files.readAllLines(p)) {
        if (l.startsWith("finding: ")) {
          r.add(l.substring(9).trim());
        }
      }
    }
    return r;
  }

  private Set<String> known(H h) throws IOException {
    Set<String> r = new LinkedHashSet<>();
    String p = "property=" + id + " harness=" + h.name + " label=";
    for (String k : known()) {
      if (k.startsWith(p)) {
        r.add(k.substring(p.length()));
      }
    }
    // a line continues with the description: keep every prefix that ends before a space
    for (String k : List.copyOf(r)) {
      for (int i = k.indexOf(' '); i > 0; i = k.indexOf(' ', i + 1)) {
        r.add(k.substring(0, i));
      }
    }
    return r;
  }

  int report(List<H> hs) throws Exception {
    List<Task> tasks = new ArrayList<>();
    int violations = 0;
    if (hs.isEmpty()) {
      problems.add("no harness");
    }
    for (H h : hs) {
      if (h.ex == null) {
        problems.add(h.name + ": " + h.error);
        continue;
      }
      for (Explorer.Violation v : h.ex.violations.values()) {
        Task t = new Task();
        t.h = h;
        t.kind = "violation";
        t.label = v.label;
        t.values = values(h.ex, v.values);
        t.detail = v.detail;
        tasks.add(t);
      }
      for (String c : h.covers) {
        Model m = h.ex.coverModels.get(c);
        if (m != null) {
          Task t = new Task();
          t.h = h;
          t.kind = "cover";
          t.label = c;
          t.values = values(h.ex, modelValues(h, m));
          tasks.add(t);
        }
      }
    }
    ExecutorService pool = Executors.newFixedThreadPool(8);
    List<Future<?>> fs = new ArrayList<>();
    for (Task t : tasks) {
      fs.add(pool.submit(() -> {
        // the iteration order of hash tables depends on identity hash codes: then try equal and consecutive ones
        for (int hash : new int[] {5, 2, 3}) {
          String out = nativeRun(t.h, t.values, hash);
          t.ok = out.lines().anyMatch(l -> l.equals(t.kind.equals("cover") ? "TRACE cover " + t.label
              : "FAILED " + t.label)) && out.contains("END steps");
          if (t.ok || t.out == null) {
            t.out = out;
          }
          if (t.ok) {
            break;
          }
        }
        return null;
      }));
    }
    for (Future<?> f : fs) {
      f.get();
    }
    pool.shutdown();

    Set<String> known = known();
    int validated = 0;
    List<String> lines = new ArrayList<>();
    Path rdir = verif.resolve("build/replay");
    Files.createDirectories(rdir);
    for (Task t : tasks) {
      if (t.kind.equals("cover")) {
        if (t.ok) {
          validated++;
        } else {
          problems.add(t.h.name + ": witness of cover '" + t.label + "' did not replay on the real code");
          dump(rdir, t);
        }
        continue;
      }
      Path f = dump(rdir, t);
      if (!t.ok) {
        problems.add(t.h.name + ": counterexample of '" + t.label + "' did not replay on the real code (" + f + ") "
            + t.detail);
        continue;
      }
      validated++;
      String key = null;
      for (String k : known) {
        if (k.startsWith("property=" + id + " harness=" + t.h.name + " label=" + t.label + " ")) {
          key = k;
        }
      }
      if (key != null) {
        System.out.println("KNOWN-FINDING: property=" + id + " " + key.substring(key.indexOf("label=")));
        continue;
      }
      violations++;
      System.out.println("VIOLATION property=" + id + " replay=" + f);
      System.out.println("  harness " + t.h.name + ": " + t.label + " " + t.detail);
    }
    for (H h : hs) {
      if (h.error != null && h.ex != null) {
        problems.add(h.name + ": " + h.error);
      }
      if (h.error == null && h.ex != null && h.ex.violations.isEmpty()) {
        for (String c : h.covers) {
          if (!h.ex.coverModels.containsKey(c)) {
            problems.add(h.name + ": cover '" + c + "' is unreachable (vacuous harness)");
          }
        }
        if (h.ex.checks.isEmpty()) {
          problems.add(h.name + ": no assertion was reached");
        }
      }
    }
    int disagreements = 0, compared = 0;
    if (!tier.equals("quick") && violations == 0) {
      int[] r = crossCheck(hs);
      compared = r[0];
      disagreements = r[1];
      if (disagreements > 0) {
        problems.add(disagreements + " queries answered differently by cvc5");
      }
    }
    evidence(hs, violations, validated, compared, disagreements);
    double secs = (System.nanoTime() - t0) / 1e9;
    for (H h : hs) {
      System.out.println(String.format("  %-28s %s %6.1fs %s", h.name, h.error != null ? "INCONCLUSIVE"
          : h.ex.violations.isEmpty() ? "ok          " : "violated    ", h.nanos / 1e9, h.ex == null ? "" :
          "steps=" + h.ex.maxStep + " states=" + h.ex.parkedStates + " merged=" + h.ex.mergedStates + " insns="
              + h.vm.instructions + " queries=" + h.vm.smt.queries + " solver="
              + h.vm.smt.nanos / 1000000 + "ms checks=" + h.ex.checks.values().stream().mapToInt(z -> z).sum()));
    }
    if (violations > 0) {
      return 1;
    }
    if (!problems.isEmpty()) {
      for (String p : problems) {
        System.out.println("INCONCLUSIVE property=" + id + " " + p);
      }
      return 2;
    }
    System.out.println(String.format("OK property=%s tier=%s %.1fs", id, tier, secs));
    return 0;
  }

  private Path dump(Path dir, Task t) throws IOException {
    Path f = dir.resolve(id + "-" + t.h.name + "-" + t.label.replaceAll("[^A-Za-z0-9]+", "_") + ".txt");
    Files.writeString(f, "# property " + id + " harness " + t.h.cls + "." + t.h.name + " " + t.kind + " " + t.label
        + "\n# bounds: " + t.h.bounds + "\n# solver assignment (inputs, and schedule s<step> = thread):\n" + t.values
        + "# ---- output of the replay on the real classes\n# " + t.out.replace("\n", "\n# ") + "\n# at " + t.detail
        + "\n");
    return f;
  }

  /** Second solver on a sample of the queries. */
  private int[] crossCheck(List<H> hs) throws Exception {
    List<String> q = new ArrayList<>(), an = new ArrayList<>();
    for (H h : hs) {
      for (int i = 0; i < h.samples.size() && i < 6; i++) {
        q.add(h.samples.get(i));
        an.add(h.answers.get(i));
      }
    }
    ExecutorService pool = Executors.newFixedThreadPool(8);
    List<Future<String>> fs = new ArrayList<>();
    for (String s : q) {
      fs.add(pool.submit(() -> {
        Path f = Files.createTempFile(tmp, "q", ".smt2");
        Files.writeString(f, "(set-logic QF_BV)\n" + s);
        Path out = Files.createTempFile(tmp, "qo", ".txt");
        Process p = new ProcessBuilder("cvc5", "--tlimit=20000", f.toString()).redirectErrorStream(true)
            .redirectOutput(out.toFile()).start();
        if (!p.waitFor(30, TimeUnit.SECONDS)) {
          p.destroyForcibly();
          return "timeout";
        }
        return Files.readString(out).trim();
      }));
    }
    int cmp = 0, bad = 0;
    for (int i = 0; i < fs.size(); i++) {
      String r = fs.get(i).get();
      if (r.equals("sat") || r.equals("unsat")) {
        cmp++;
        if (!r.equals(an.get(i))) {
          bad++;
        }
      }
    }
    pool.shutdown();
    return new int[] {cmp, bad};
  }

  private static String q(String s) {
    StringBuilder sb = new StringBuilder("\"");
    for (char c : s.toCharArray()) {
      if (c == '"' || c == '\\') {
        sb.append('\\').append(c);
      } else if (c < 32) {
        sb.append(String.format("\\u%04x", (int) c));
      } else {
        sb.append(c);
      }
    }
    return sb.append('"').toString();
  }

  private static String arr(Iterable<String> l) {
    List<String> r = new ArrayList<>();
    for (String s : l) {
      r.add(q(s));
    }
    return "[" + String.join(", ", r) + "]";
  }

  private void evidence(List<H> hs, int violations, int validated, int compared, int disagree) throws IOException {
    long states = 0, trans = 0, queries = 0, sat = 0, unsat = 0, solver = 0, insns = 0, checks = 0;
    Set<String> fn = new TreeSet<>();
    List<String> samples = new ArrayList<>(), hl = new ArrayList<>();
    for (H h : hs) {
      fn.addAll(h.functions);
      if (h.ex == null) {
        continue;
      }
      states += h.ex.parkedStates + h.ex.ends;
      trans += h.ex.segments + h.vm.forks;
      queries += h.vm.smt.queries;
      sat += h.vm.smt.sat;
      unsat += h.vm.smt.unsat;
      solver += h.vm.smt.nanos;
      insns += h.vm.instructions;
      int ck = h.ex.checks.values().stream().mapToInt(z -> z).sum();
      checks += ck;
      for (Map.Entry<String, Model> e : h.ex.coverModels.entrySet()) {
        if (samples.size() < 8) {
          samples.add(h.name + " reaches '" + e.getKey() + "' with " + modelValues(h, e.getValue()));
        }
      }
      hl.add("{\"harness\": " + q(h.name) + ", \"bounds\": " + q(String.valueOf(h.bounds)) + ", \"result\": "
          + q(h.error != null ? "inconclusive: " + h.error.lines().findFirst().orElse("") : h.ex.violations.isEmpty()
          ? "holds within the bounds" : "violated: " + h.ex.violations.keySet())
          + ", \"symbolic_inputs\": " + h.ex.inputs.size() + ", \"schedule_steps\": " + h.ex.maxStep
          + ", \"merged_states\": " + h.ex.mergedStates + ", \"schedule_forks\": " + h.ex.schedForks
          + ", \"assertion_evaluations\": " + ck + ", \"assertions\": " + arr(h.ex.checks.keySet())
          + ", \"covers_reached\": " + arr(h.ex.coverModels.keySet())
          + ", \"queries\": " + h.vm.smt.queries + ", \"solver_ms\": " + h.vm.smt.nanos / 1000000
          + ", \"seconds\": " + String.format("%.1f", h.nanos / 1e9) + "}");
    }
    if (samples.isEmpty()) {
      samples.add("no cover reached");
    }
    String seed = System.getenv("VERIF_SEED");
    String json = "{\"property\": " + q(id) + ", \"tier\": " + q(tier.equals("quick") ? "quick" : "thorough")
        + ", \"seed\": " + (seed == null ? "1" : seed) + ", \"level\": \"model_checking\", \"coverage\": {"
        + "\"states\": " + states + ", \"transitions\": " + trans + ", \"traces_validated_against_impl\": " + validated
        + ", \"samples\": " + arr(samples) + ", \"functions_encoded\": " + arr(fn)
        + ", \"bytecode_instructions_executed\": " + insns + ", \"assertion_evaluations\": " + checks
        + ", \"smt_queries\": " + queries + ", \"smt_sat\": " + sat + ", \"smt_unsat\": " + unsat
        + ", \"solver_seconds\": " + String.format("%.2f", solver / 1e9)
        + ", \"second_solver_queries_compared\": " + compared + ", \"second_solver_disagreements\": " + disagree
        + ", \"harnesses\": [" + String.join(",\n  ", hl) + "]"
        + ", \"explanation\": " + q("states: symbolic states parked at a scheduling point or at the end of a harness, "
        + "each standing for all inputs and schedules of its path condition; transitions: symbolic execution segments "
        + "and forks; traces_validated_against_impl: solver models of reachability witnesses (and counterexamples) "
        + "replayed on the real classes on the JVM")
        + "}, \"assumptions\": " + arr(List.of("bounds of each harness as listed",
        "sequentially consistent interleavings; thread switches before every blocking operation and every access to a "
            + "location (field, collection, atomic, monitor, latch, executor) that two threads access in conflict, "
            + "found by iterating the exploration until no further conflict appears",
        "java.util/java.util.concurrent collections, atomics, executors, latches and log4j are models "
            + "(engine/models, engine/rt); each operation on them is atomic",
        "answers of Z3 4.14.1 and (for queries Z3 finds hard) cvc5 1.1.2 are trusted; unknown or time-out is reported as inconclusive, never as success"))
        + ", \"wall_s\": " + String.format("%.1f", (System.nanoTime() - t0) / 1e9) + ", \"violations\": " + violations
        + "}\n";
    Path e = verif.resolve("evidence");
    Files.createDirectories(e);
    if (only == null) {
      Files.writeString(e.resolve(id + ".json"), json);
    }
  }
}
