package verif.rt;

import java.nio.file.Files;
import java.nio.file.Path;

/** Native replay: Replay class method valuesfile. */
public final class Replay {
  private Replay() {
  }

  public static void main(String[] a) throws Exception {
    for (String l : Files.readAllLines(Path.of(a[2]))) {
      int i = l.lastIndexOf('=');
      if (l.startsWith("points=")) {
        for (String q : l.substring(7).split(",")) {
          if (!q.isBlank()) {
            Sched.active.set(Integer.parseInt(q.trim()));
          }
        }
      } else if (i > 0 && !l.startsWith("#")) {
        Sym.values.put(l.substring(0, i), Long.parseLong(l.substring(i + 1).trim()));
      }
    }
    int code = 0;
    Thread main = new Thread(null, () -> {
      Sched.main0();
      try {
        Class.forName(a[0]).getMethod(a[1]).invoke(null);
      } catch (java.lang.reflect.InvocationTargetException e) {
        Throwable t = e.getTargetException();
        if (t instanceof Sym.AssumeViolated) {
          System.out.println("ASSUME-VIOLATED");
        } else if (!(t instanceof Sched.Deadlock)) {
          Sym.failed.add("uncaught:" + t.getClass().getName());
          t.printStackTrace(System.out);
        }
      } catch (Throwable t) {
        t.printStackTrace(System.out);
        System.out.println("REPLAY-ERROR");
      }
    }, "harness", 1 << 26);
    main.setDaemon(false); // as in the model: new threads inherit it
    main.start();
    main.join(60000);
    if (main.isAlive()) {
      System.out.println("REPLAY-TIMEOUT");
      for (StackTraceElement e : main.getStackTrace()) {
        System.out.println("   at " + e);
      }
    }
    for (String s : Sym.trace) {
      System.out.println("TRACE " + s);
    }
    for (String s : Sched.log) {
      System.out.println("SCHED " + s);
    }
    for (String s : Sym.failed) {
      System.out.println("FAILED " + s);
    }
    System.out.println("END steps=" + Sched.step);
    System.out.flush();
    Runtime.getRuntime().halt(code);
  }
}
