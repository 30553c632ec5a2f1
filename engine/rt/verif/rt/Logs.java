package verif.rt;

/** Log records of the code under test. */
public final class Logs {
  public static final int TRACE = 0, DEBUG = 1, INFO = 2, WARN = 3, ERROR = 4, FATAL = 5;

  public static final class Rec {
    public final String logger;
    public final int level;
    public final String text;
    public final Throwable thrown;

    Rec(String logger, int level, String text, Throwable thrown) {
      this.logger = logger;
      this.level = level;
      this.text = text;
      this.thrown = thrown;
    }
  }

  public static boolean record;
  public static Rec[] recs = new Rec[64];
  public static int n;

  private Logs() {
  }

  public static void on() {
    record = true;
    n = 0;
  }

  static Object[] eval(java.util.function.Supplier<?>[] s) {
    Object[] r = new Object[s.length];
    for (int i = 0; i < r.length; i++) {
      r[i] = s[i].get();
    }
    return r;
  }

  static void add(String logger, int level, String m, Object[] args, Throwable t) {
    if (!record) {
      return;
    }
    int used = 0;
    String out = "";
    if (m == null) {
      out = "null";
    } else if (args == null) {
      out = m;
    } else {
      int from = 0;
      while (true) {
        int i = m.indexOf("{}", from);
        if (i < 0 || used >= args.length) {
          out = out.concat(m.substring(from));
          break;
        }
        out = out.concat(m.substring(from, i)).concat(String.valueOf(args[used++]));
        from = i + 2;
      }
      if (t == null && used < args.length && args[args.length - 1] instanceof Throwable) {
        t = (Throwable) args[args.length - 1];
      }
    }
    recs[n++] = new Rec(logger, level, out, t);
  }
}
