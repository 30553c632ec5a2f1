package verif.h;

import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.service.AbstractAppContext;
import com.webotech.statemachine.service.AbstractAppService;
import com.webotech.statemachine.service.api.Subsystem;
import java.util.ArrayList;
import java.util.List;
import verif.rt.Check;
import verif.rt.Sched;
import verif.rt.Sym;

/** C23: an app exposes its context and works on its own thread. */
public class C23 {
  static final class Ctx extends AbstractAppContext<Ctx> {
    Ctx(String name) {
      super(name);
    }

    Ctx(String name, String[] args) {
      super(name, args);
    }
  }

  /** Notes the threads it is called on. */
  static final class Rec implements Subsystem<Ctx>, StateMachineListener<Ctx, Void> {
    Thread[] threads = new Thread[64];
    int n, starts, stops, changes, ends;
    boolean inside, overlap, wrongContext;
    Ctx ctx;

    void note() {
      threads[n++] = Thread.currentThread();
      overlap |= inside;
      inside = true;
      Sched.point();
      inside = false;
    }

    @Override
    public void start(Ctx c) {
      starts++;
      wrongContext |= c != ctx;
      note();
    }

    @Override
    public void stop(Ctx c) {
      stops++;
      wrongContext |= c != ctx;
      note();
    }

    @Override
    public void onStateChangeBegin(State<Ctx, Void> f, StateEvent<Void> e, State<Ctx, Void> t) {
      if (!t.getName().equals("UNINITIALISED")) {
        changes++;
        note();
      }
    }

    @Override
    public void onStateChangeEnd(State<Ctx, Void> f, StateEvent<Void> e, State<Ctx, Void> t) {
      if (!t.getName().equals("UNINITIALISED")) {
        ends++;
        note();
      }
    }
  }

  static final class App extends AbstractAppService<Ctx> {
    App(Ctx c, boolean exit) {
      super(c, exit);
    }

    String state() {
      return getLifecycleState() == null ? null : getLifecycleState().getName();
    }
  }

  static boolean same(String[] a, String[] b) {
    if (a == null || a.length != b.length) {
      return false;
    }
    for (int i = 0; i < a.length; i++) {
      if (a[i] != b[i] && (a[i] == null || !a[i].equals(b[i]))) {
        return false;
      }
    }
    return true;
  }

  @Check(bounds = "two names, no or zero to three arguments, the thread name and the subsystems set never, once or twice, in either order, before or after the app is built", covers = {
      "defaults", "all given", "set twice"})
  public static void context() {
    String name = Sym.split("name", 2) == 0 ? "an app" : "";
    int k = Sym.split("arguments", 5);
    String[] args = k == 4 ? null : new String[k];
    for (int i = 0; i < 3 && args != null && i < k; i++) {
      args[i] = Sym.bool("same argument" + i) ? "x" : "arg" + i;
    }
    Ctx c = args == null ? new Ctx(name) : new Ctx(name, args);
    int ts = Sym.split("thread names", 3);
    int ss = Sym.split("subsystem lists", 3);
    boolean threadFirst = Sym.split("thread name first", 2) == 1;
    App app = new App(c, true);
    Rec r1 = new Rec();
    Rec r2 = new Rec();
    List<Subsystem<Ctx>> l1 = new ArrayList<>();
    l1.add(r1);
    List<Subsystem<Ctx>> l2 = new ArrayList<>();
    l2.add(r2);
    l2.add(r1);
    l2.add(r1);
    boolean chained = true;
    for (int round = 0; round < 2; round++) {
      boolean thread = threadFirst == (round == 0);
      if (thread) {
        if (ts > 0) {
          chained &= c.withAppThreadName("first") == c;
        }
        if (ts > 1) {
          chained &= c.withAppThreadName("second") == c;
        }
      } else {
        if (ss > 0) {
          chained &= c.withSubsystems(l2) == c;
        }
        if (ss > 1) {
          chained &= c.withSubsystems(l1) == c;
        }
      }
    }
    Sym.check("name", c.getAppName().equals(name));
    Sym.check("arguments", same(c.getInitArgs(), args == null ? new String[0] : args));
    Sym.check("thread name", c.getAppThreadName().equals(ts == 0 ? "app" : ts == 1 ? "first" : "second"));
    List<Subsystem<Ctx>> got = c.getSubsystems();
    Sym.check("subsystems", ss == 0 ? got.isEmpty() : ss == 2 ? got.size() == 1 && got.get(0) == r1
        : got.size() == 3 && got.get(0) == r2 && got.get(1) == r1 && got.get(2) == r1);
    Sym.check("the setters return the context", chained);
    Sym.check("the app exposes its context", app.getAppContext() == c);
    Sym.cover("defaults", ts == 0 && ss == 0 && args == null);
    Sym.cover("all given", ts == 1 && ss == 1 && k == 3);
    Sym.cover("set twice", ts == 2 && ss == 2);
  }

  /** The thread's name is the prefix, a dash and a number. */
  static boolean named(Thread t, String prefix) {
    String n = t.getName();
    if (!n.startsWith(prefix + "-") || n.length() == prefix.length() + 1) {
      return false;
    }
    for (int i = prefix.length() + 1; i < n.length(); i++) {
      if (n.charAt(i) < '0' || n.charAt(i) > '9') {
        return false;
      }
    }
    return true;
  }

  static Rec[] parts(Ctx c, int n) {
    Rec[] r = new Rec[n + 1]; // the last one is the listener
    List<Subsystem<Ctx>> l = new ArrayList<>();
    for (int i = 0; i <= n; i++) {
      r[i] = new Rec();
      r[i].ctx = c;
      if (i < n) {
        l.add(r[i]);
      }
    }
    c.withSubsystems(l);
    return r;
  }

  static Thread worker(Rec[] parts, String prefix, Thread... clients) {
    Thread w = null;
    for (Rec r : parts) {
      for (int i = 0; i < r.n; i++) {
        Thread t = r.threads[i];
        w = w == null ? t : w;
        Sym.check("always the same thread", t == w);
      }
      Sym.check("one at a time, with the app's context", !r.overlap && !r.wrongContext);
    }
    if (w != null) {
      for (Thread c : clients) {
        Sym.check("never a caller's thread", c != w);
      }
      Sym.check("a daemon thread named with the prefix, a dash and a number", w.isDaemon() && named(w, prefix));
    }
    return w;
  }

  @Check(bounds = "two subsystems, both exit modes, the default or another thread name; start, then two calls among stop, error and start, each from its own thread and after the one before has had its effect", covers = {
      "restarted", "ended"})
  public static void thread() {
    boolean exit = Sym.split("exit on stop", 2) == 1;
    boolean named = Sym.split("named", 2) == 1;
    Ctx c = new Ctx("app name");
    if (named) {
      c.withAppThreadName("wor-ker");
    }
    Rec[] r = parts(c, 2);
    App a = new App(c, exit);
    a.setStateMachineListener(r[2]);
    Thread[] clients = new Thread[4];
    clients[3] = Thread.currentThread();
    Sched.spawn(() -> {
      clients[0] = Thread.currentThread();
      a.start();
    });
    Sched.awaitQuiescence();
    for (int i = 1; i < 3; i++) {
      int op = Sym.split("op" + i, 3);
      int k = i;
      Sched.spawn(() -> {
        clients[k] = Thread.currentThread();
        if (op == 0) {
          a.error(new IllegalArgumentException());
        } else {
          try {
            if (op == 1) {
              a.stop();
            } else {
              a.start();
            }
          } catch (IllegalStateException e) {
            // refused
          }
        }
      });
      Sched.awaitQuiescence();
    }
    Thread w = worker(r, named ? "wor-ker" : "app", clients);
    Sym.check("the parts were used", w != null && r[0].starts > 0 && r[1].starts == r[0].starts && r[2].changes >= 2
        && r[2].ends == r[2].changes);
    Sym.cover("restarted", r[0].starts == 2 && r[0].stops == 1);
    Sym.cover("ended", "_END_".equals(a.state()));
  }

  @Check(bounds = "two apps with the same or different contexts and thread names, started by two threads in every interleaving", covers = "both at work")
  public static void twoApps() {
    boolean sameName = Sym.split("same name", 2) == 1;
    App[] a = new App[2];
    Rec[][] r = new Rec[2][];
    Thread[][] clients = new Thread[2][1];
    boolean[] both = new boolean[1];
    for (int i = 0; i < 2; i++) {
      Ctx c = new Ctx("app" + i);
      c.withAppThreadName(sameName || i == 0 ? "one" : "two");
      r[i] = parts(c, 1);
      a[i] = new App(c, true);
    }
    for (int i = 0; i < 2; i++) {
      int k = i;
      Sched.spawn(() -> {
        clients[k][0] = Thread.currentThread();
        a[k].start();
      });
    }
    Sched.awaitQuiescence();
    Thread w0 = worker(new Rec[] {r[0][0]}, "one", clients[0][0], clients[1][0]);
    Thread w1 = worker(new Rec[] {r[1][0]}, sameName ? "one" : "two", clients[0][0], clients[1][0]);
    Sym.check("each is started once", r[0][0].starts == 1 && r[1][0].starts == 1);
    Sym.check("different apps use different threads of different names", w0 != w1 && !w0.getName().equals(w1.getName()));
    Sym.cover("both at work", "STARTED".equals(a[0].state()) && "STARTED".equals(a[1].state()));
  }

  @Check(bounds = "the life-cycle listener is replaced, by another one or none, before the start, when started or when stopped; restartable mode", covers = "replaced while started")
  public static void listener() {
    int when = Sym.split("when", 3);
    boolean none = Sym.split("none", 2) == 1;
    Ctx c = new Ctx("app name");
    Rec[] r = parts(c, 1);
    App a = new App(c, false);
    Rec first = r[1];
    Rec second = new Rec();
    a.setStateMachineListener(first);
    int old = 0;
    for (int i = 0; i < 4; i++) {
      if (i == when) {
        a.setStateMachineListener(none ? null : second);
        old = first.changes;
      }
      if (i == 0) {
        Sched.spawn(() -> a.start());
      } else if (i == 2) {
        a.start();
      } else {
        a.stop();
      }
      Sched.awaitQuiescence();
    }
    Sym.check("every change before is told to the first listener", old == 2 * when && first.ends == old
        && first.changes == old);
    Sym.check("every change from then on is told to the second one", second.changes == (none ? 0 : 8 - old)
        && second.ends == second.changes);
    Sym.check("stopped", "STOPPED".equals(a.state()) && r[0].starts == 2 && r[0].stops == 2);
    Sym.cover("replaced while started", when == 1 && !none);
  }
}
