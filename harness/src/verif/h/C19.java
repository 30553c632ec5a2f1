package verif.h;

import verif.rt.Check;
import verif.rt.Sched;
import verif.rt.Sym;

/** C19: app start and stop honour the exit mode and refuse illegal calls. */
public class C19 {
  static final int S_NEW = 0, S_STARTED = 1, S_STOPPED = 2, S_END = 3;

  static void blocked(Apps.App a, boolean exit) {
    boolean over = a.ended();
    Sym.check("the first start blocks until the app has ended and then returns normally", a.returned == over && !a.refused
        && !a.otherException);
    Sym.check("the app is stopped when start returns", !a.returned || a.stateAtReturn.equals("STOPPED")
        || a.stateAtReturn.equals("_END_"));
  }

  static void sequence(int len, boolean failures) {
    boolean exit = Sym.bool("exit on stop");
    Apps.App a = new Apps.App(1, exit);
    int s = S_NEW;
    boolean restarted = false;
    boolean refusedStart = false;
    boolean refusedStop = false;
    for (int i = 0; i < len; i++) {
      int op = Sym.pick("op" + i, 3);
      if (failures) {
        a.failStart = Sym.pick("fails" + i, 2);
        a.failStop = Sym.pick("fails too" + i, 2);
      }
      int transitions = a.transitions;
      if (op == 0) {
        if (s == S_NEW) {
          Sched.spawn(() -> a.first());
          s = a.failStart != 0 ? S_STARTED : exit ? S_END : S_STOPPED;
        } else {
          boolean ok = a.tryStart();
          boolean allowed = !exit && s == S_STOPPED;
          Sym.check("start is refused exactly when the state does not permit it", ok == allowed);
          restarted |= ok;
          refusedStart |= !ok;
          if (ok) {
            s = a.failStart != 0 ? S_STARTED : S_STOPPED;
          } else {
            Sched.awaitQuiescence();
            Sym.check("a refused start has no effect", a.transitions == transitions);
          }
        }
      } else if (op == 1) {
        boolean ok = a.tryStop();
        boolean allowed = s == S_STARTED || !exit && s == S_STOPPED;
        Sym.check("stop is refused exactly when the state does not permit it", ok == allowed);
        refusedStop |= !ok;
        if (ok) {
          s = s == S_STARTED && !exit ? S_STOPPED : S_END;
        } else {
          Sched.awaitQuiescence();
          Sym.check("a refused stop has no effect", a.transitions == transitions);
        }
      } else if (s != S_NEW) {
        a.error(new IllegalArgumentException());
        if (s == S_STARTED) {
          s = exit ? S_END : S_STOPPED;
        }
      }
      Sched.awaitQuiescence();
      Sym.check("state", s == S_NEW ? a.state() == null : a.state().equals(s == S_STARTED ? "STARTED"
          : s == S_STOPPED ? "STOPPED" : "_END_"));
      if (s != S_NEW) {
        blocked(a, exit);
      }
    }
    Sym.cover("ended with exit on stop", exit && s == S_END);
    Sym.cover("restarted and ended", restarted && s == S_END);
    Sym.cover("refusals", refusedStart && refusedStop);
  }

  @Check(bounds = "every sequence of 6 calls among start, stop and error, each after the previous one has had its effect; 1 subsystem; both exit modes", covers = {
      "ended with exit on stop", "restarted and ended", "refusals"})
  public static void calls() {
    sequence(6, false);
  }

  @Check(bounds = "every sequence of 5 calls; the subsystem may fail to start or stop each time", covers = {
      "ended with exit on stop", "restarted and ended", "refusals"})
  public static void failing() {
    sequence(5, true);
  }

  @Check(bounds = "sequences of 9 calls with failures", quick = false, covers = {"ended with exit on stop",
      "restarted and ended", "refusals"})
  public static void longer() {
    sequence(9, true);
  }

  @Check(bounds = "start or stop called by a subsystem while the app is starting or stopping; both exit modes", covers = {
      "while starting", "while stopping"})
  public static void whileBusy() {
    boolean exit = Sym.bool("exit on stop");
    boolean first = Sym.bool("while starting");
    boolean start = Sym.bool("start");
    Apps.App a = new Apps.App(2, exit);
    boolean[] ok = new boolean[1];
    int[] calls = new int[1];
    a.during = Sym.pick("which", 2);
    Runnable r = () -> {
      calls[0]++;
      ok[0] |= start ? a.tryStart() : a.tryStop();
    };
    if (first) {
      a.duringStart = r;
    } else {
      a.duringStop = r;
    }
    Sched.spawn(() -> a.first());
    Sched.awaitQuiescence();
    Sym.check("started all the same", a.state().equals("STARTED") && a.starts == 2);
    blocked(a, exit);
    Sym.check("stop", a.tryStop());
    Sched.awaitQuiescence();
    Sym.check("start and stop are refused while the app starts or stops", calls[0] == 1 && !ok[0]);
    Sym.check("stopped all the same", a.state().equals(exit ? "_END_" : "STOPPED") && a.stops == 2);
    Sym.cover("while starting", first);
    Sym.cover("while stopping", !first);
    blocked(a, exit);
  }

  @Check(bounds = "a client thread stops the app at any moment of its start, in every interleaving with the starter and the app's thread; both exit modes; 1 subsystem", covers = {
      "stop refused", "stop accepted"})
  public static void stopWhileStarting() {
    boolean exit = Sym.split("exit on stop", 2) == 1;
    Apps.App a = new Apps.App(1, exit);
    boolean[] ok = new boolean[1];
    Sched.spawn(() -> a.first());
    Sched.spawn(() -> {
      ok[0] = a.tryStop();
    });
    Sched.awaitQuiescence();
    Sym.cover("stop refused", !ok[0]);
    Sym.cover("stop accepted", ok[0]);
    Sym.check("an accepted stop stops the app, a refused one has no effect", a.state().equals(!ok[0] ? "STARTED"
        : exit ? "_END_" : "STOPPED") && a.stops == (ok[0] ? 1 : 0));
    blocked(a, exit);
  }

  @Check(bounds = "two threads call start on a new app, in every interleaving; both exit modes", covers = {"second wins"})
  public static void twoStarts() {
    boolean exit = Sym.split("exit on stop", 2) == 1;
    Apps.App a = new Apps.App(1, exit);
    boolean[] refused = new boolean[2];
    boolean[] back = new boolean[2];
    for (int i = 0; i < 2; i++) {
      int k = i;
      Sched.spawn(() -> {
        refused[k] = !a.tryStart();
        back[k] = true;
      });
    }
    Sched.awaitQuiescence();
    Sym.check("exactly one start is refused", refused[0] != refused[1]);
    Sym.check("the other blocks", back[0] == refused[0] && back[1] == refused[1]);
    Sym.check("started once", a.state().equals("STARTED") && a.starts == 1);
    Sym.cover("second wins", refused[0]);
    a.stop();
    Sched.awaitQuiescence();
    if (!exit) {
      a.stop();
      Sched.awaitQuiescence();
    }
    Sym.check("the first start returns once the app has ended", a.ended() && back[0] && back[1]);
  }

  /** Two clients call stop or report an error at the same time. */
  static void twoStops() {
    boolean exit = Sym.split("exit on stop", 2) == 1;
    boolean error = Sym.split("error", 2) == 1;
    Apps.App a = new Apps.App(1, exit);
    Sched.spawn(() -> a.first());
    Sched.awaitQuiescence();
    boolean[] ok = new boolean[2];
    Sched.spawn(() -> {
      ok[0] = a.tryStop();
      Sym.check("stop is never refused to a started or stopped app", !error || ok[0] || exit && a.ended());
    });
    Sched.spawn(() -> {
      if (error) {
        a.error(new IllegalArgumentException());
      } else {
        ok[1] = a.tryStop();
      }
    });
    Sched.awaitQuiescence();
    Sym.check("stopped or ended", a.ended() || !exit && a.state().equals("STOPPED"));
    Sym.check("one of them is accepted", ok[0] || ok[1] || error);
    Sym.cover("a stop is refused", !ok[0] || !ok[1] && !error);
    blocked(a, exit);
    if (!a.ended()) {
      Sym.check("stop while stopped is accepted", a.tryStop());
      Sched.awaitQuiescence();
      Sym.check("ended", a.ended());
      blocked(a, exit);
    }
  }

  @Check(bounds = "two clients stop a started app, or one stops it and one reports an error, in every interleaving; both exit modes", covers = "a stop is refused")
  public static void stopTwice() {
    twoStops();
  }

  @Check(bounds = "an error is reported at any moment before, during or after the start of the app; both exit modes; 2 subsystems", covers = {
      "error ignored", "error stops the app"})
  public static void errorWhileStarting() {
    boolean exit = Sym.split("exit on stop", 2) == 1;
    Apps.App a = new Apps.App(2, exit);
    Sched.spawn(() -> a.first());
    String[] at = new String[1];
    Sched.spawn(() -> {
      Sched.point();
      at[0] = a.state();
      a.error(new IllegalArgumentException());
    });
    Sched.awaitQuiescence();
    boolean down = a.state().equals(exit ? "_END_" : "STOPPED");
    Sym.check("started or stopped by the error", down || a.state().equals("STARTED"));
    Sym.check("an error reported to a starting or started app is not ignored", down
        || !"STARTING".equals(at[0]) && !"STARTED".equals(at[0]));
    Sym.cover("error ignored", !down);
    Sym.cover("error stops the app", down);
    blocked(a, exit);
  }

  @Check(bounds = "a stopped app that can be restarted gets a start and a stop from two clients, in every interleaving", covers = {
      "restarted", "ended"})
  public static void startAndStopWhileStopped() {
    Apps.App a = new Apps.App(1, false);
    Sched.spawn(() -> a.first());
    Sched.awaitQuiescence();
    a.stop();
    Sched.awaitQuiescence();
    boolean[] ok = new boolean[2];
    Sched.spawn(() -> {
      ok[0] = a.tryStart();
    });
    Sched.spawn(() -> {
      ok[1] = a.tryStop();
    });
    Sched.awaitQuiescence();
    Sym.check("one of them is accepted", ok[0] || ok[1]);
    Sym.check("the app is in a state where nothing is under way", a.ended() || a.state().equals("STARTED")
        || ok[0] && ok[1] && a.state().equals("STOPPED"));
    Sym.check("a refused call has no effect", (ok[0] || a.starts == 1 && a.ended()) && (ok[1] || a.state().equals("STARTED")));
    Sym.cover("restarted", a.state().equals("STARTED"));
    Sym.cover("ended", a.ended());
    blocked(a, false);
  }

  @Check(bounds = "a stopped app that can be restarted gets two starts from two clients, in every interleaving; then a stop", covers = "both accepted")
  public static void restartTwice() {
    Apps.App a = new Apps.App(1, false);
    Sched.spawn(() -> a.first());
    Sched.awaitQuiescence();
    a.stop();
    Sched.awaitQuiescence();
    boolean[] ok = new boolean[2];
    for (int i = 0; i < 2; i++) {
      int k = i;
      Sched.spawn(() -> ok[k] = a.tryStart());
    }
    Sched.awaitQuiescence();
    Sym.check("one of them is accepted", ok[0] || ok[1]);
    Sym.check("restarted once", a.state().equals("STARTED") && a.starts == 2);
    Sym.cover("both accepted", ok[0] && ok[1]);
    Sym.check("stop", a.tryStop());
    Sched.awaitQuiescence();
    Sym.check("state", a.state().equals("STOPPED") && a.stops == 2);
    blocked(a, false);
  }

  @Check(bounds = "start or stop called from the listener at the begin or end of every change of state; both exit modes; a start, a stop, in the restartable mode another stop", covers = {
      "refused while stopped", "accepted while stopped"})
  public static void fromTheListener() {
    boolean exit = Sym.split("exit on stop", 2) == 1;
    boolean start = Sym.split("start", 2) == 1;
    boolean atBegin = Sym.split("begin", 2) == 1;
    int nth = Sym.pick("change", 6);
    Apps.App a = new Apps.App(1, exit);
    boolean[] ok = new boolean[1];
    String[] at = new String[1];
    int[] n = new int[1];
    a.atChange = begin -> {
      if (begin == atBegin && n[0]++ == nth) {
        at[0] = a.state();
        ok[0] = start ? a.tryStart() : a.tryStop();
      }
    };
    Sched.spawn(() -> a.first());
    Sched.awaitQuiescence();
    if (a.state().equals("STARTED")) {
      a.stop();
      Sched.awaitQuiescence();
    }
    boolean called = at[0] != null;
    boolean stopped = called && at[0].equals("STOPPED");
    Sym.check("start is refused exactly when the state does not permit it", !called || !start
        || ok[0] == (!exit && stopped));
    Sym.check("stop is refused exactly when the state does not permit it", !called || start
        || ok[0] == (stopped || at[0].equals("STARTED")));
    Sym.cover("refused while stopped", stopped && !ok[0]);
    Sym.cover("accepted while stopped", stopped && ok[0]);
    blocked(a, exit);
  }

  @Check(bounds = "the thread blocked in the first start is interrupted while the app is started, while it is stopped, or after it has ended; both exit modes", covers = {
      "while started", "while stopped", "after the end"})
  public static void interrupted() {
    boolean exit = Sym.split("exit on stop", 2) == 1;
    int when = exit ? Sym.split("when in exit mode", 2) * 2 : Sym.split("when", 3);
    Apps.App a = new Apps.App(1, exit);
    boolean[] kept = new boolean[1];
    Thread[] t = new Thread[1];
    Sched.spawn(() -> {
      t[0] = Thread.currentThread();
      a.first();
      kept[0] = Sched.isInterrupted(Thread.currentThread());
    });
    Sched.awaitQuiescence();
    for (int i = 0; i < when; i++) {
      if (!a.ended()) {
        a.stop();
        Sched.awaitQuiescence();
      }
    }
    int before = a.transitions;
    boolean back = a.returned;
    Sched.interrupt(t[0]);
    Sched.awaitQuiescence();
    Sym.check("an interrupted start returns normally", a.returned && !a.refused && !a.otherException);
    Sym.check("an interrupted start keeps the interrupt status", back || kept[0]);
    Sym.check("an interrupted start stops the app", a.state().equals(when == 0 && !exit ? "STOPPED" : "_END_")
        && a.stops == 1);
    Sym.check("an interrupt after the end has no effect", !back || a.transitions == before);
    Sym.cover("while started", when == 0);
    Sym.cover("while stopped", when == 1);
    Sym.cover("after the end", when == 2);
  }

  @Check(bounds = "the thread that called the first start is interrupted when the app, stopped from its listener, ends; in every interleaving; both exit modes", covers = "interrupted before it is back")
  public static void interruptedAtTheEnd() {
    boolean exit = Sym.split("exit on stop", 2) == 1;
    boolean atBegin = Sym.split("begin", 2) == 1;
    Apps.App a = new Apps.App(1, exit);
    boolean[] early = new boolean[1];
    Thread[] t = new Thread[1];
    a.atChange = begin -> {
      if (!begin && !a.ended()) {
        if (a.state().equals("STARTED") || a.state().equals("STOPPED")) {
          a.tryStop();
        }
      } else if (begin == atBegin && a.ended()) {
        early[0] = !a.returned;
        Sched.interrupt(t[0]);
      }
    };
    Sched.spawn(() -> {
      t[0] = Thread.currentThread();
      a.first();
    });
    Sched.awaitQuiescence();
    Sym.check("an interrupted start returns normally", a.returned && !a.refused && !a.otherException);
    Sym.check("ended", a.ended() && a.stops == 1);
    Sym.cover("interrupted before it is back", early[0]);
  }

  @Check(bounds = "the thread blocked in the first start is interrupted while a subsystem starts or stops; both exit modes", covers = {
      "while starting", "while stopping"})
  public static void interruptedWhileBusy() {
    boolean exit = Sym.split("exit on stop", 2) == 1;
    boolean starting = Sym.split("while starting", 2) == 1;
    Apps.App a = new Apps.App(1, exit);
    Thread[] t = new Thread[1];
    a.during = 0;
    if (starting) {
      a.duringStart = () -> Sched.interrupt(t[0]);
    } else {
      a.duringStop = () -> Sched.interrupt(t[0]);
    }
    Sched.spawn(() -> {
      t[0] = Thread.currentThread();
      a.first();
    });
    Sched.awaitQuiescence();
    if (!starting) {
      a.stop();
      Sched.awaitQuiescence();
    }
    Sym.cover("while starting", starting);
    Sym.cover("while stopping", !starting);
    Sym.check("start is not refused to a thread interrupted while the app starts or stops", !a.refused);
  }
}
