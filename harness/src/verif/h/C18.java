package verif.h;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.service.LifecycleStateMachineUtil;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory.Config;
import verif.rt.Check;
import verif.rt.Sched;
import verif.rt.Sym;

/** C18: an app drives its subsystems through the documented life cycle. */
public class C18 {
  static final int UNINIT = 0, STARTING = 1, STARTED = 2, STOPPING = 3, STOPPED = 4, END = 5;
  static final int START = 0, COMPLETE = 1, STOP = 2, ERROR = 3, OTHER = 4;
  static final String[] STATES = {"UNINITIALISED", "STARTING", "STARTED", "STOPPING", "STOPPED", "_END_"};
  static final String[] EVENTS = {"start", "complete", "stop", "error", "other"};

  /** The documented table; -1: not mapped. */
  static int next(int s, int e) {
    switch (s) {
      case UNINIT:
        return e == START ? STARTING : -1;
      case STARTING:
        return e == COMPLETE ? STARTED : e == ERROR ? STOPPED : -1;
      case STARTED:
        return e == STOP ? STOPPING : e == ERROR ? STOPPED : -1;
      case STOPPING:
        return e == COMPLETE || e == ERROR ? STOPPED : -1;
      case STOPPED:
        return e == START ? STARTING : e == STOP ? END : -1;
      default:
        return -1;
    }
  }

  static void table(int len, boolean fresh) {
    Steps steps = new Steps();
    int[] entries = new int[6];
    int[] expected = new int[6];
    Config<int[], Void> cfg = new Config<int[], Void>().withExecutor(steps);
    GenericStateMachine<int[], Void> m = new GenericStateMachine.Builder<int[], Void>().setContext(entries)
        .setEventProcessingStrategy(EventProcessingStrategyFactory.createDefaultStrategy(cfg)).build();
    State<int[], Void> u = LifecycleStateMachineUtil.newUnitialisedState((e, sm) -> sm.getContext()[UNINIT]++);
    State<int[], Void> st = LifecycleStateMachineUtil.newStartingState((e, sm) -> sm.getContext()[STARTING]++);
    State<int[], Void> sd = LifecycleStateMachineUtil.newStartedState((e, sm) -> sm.getContext()[STARTED]++);
    State<int[], Void> pg = LifecycleStateMachineUtil.newStoppingState((e, sm) -> sm.getContext()[STOPPING]++);
    State<int[], Void> pd = LifecycleStateMachineUtil.newStoppedState((e, sm) -> sm.getContext()[STOPPED]++,
        (e, sm) -> sm.getContext()[END]++);
    LifecycleStateMachineUtil.configureAppStateMachine(m, u, st, sd, pg, pd);
    m.start();
    expected[UNINIT]++;
    int s = UNINIT;
    boolean restarted = false;
    for (int i = 0; i < len; i++) {
      int e = Sym.pick("e" + i, 5);
      StateEvent<Void> ev;
      if (e == OTHER) {
        ev = new NamedStateEvent<>("other");
      } else if (fresh) {
        ev = new NamedStateEvent<>(EVENTS[e]);
      } else {
        ev = e == START ? LifecycleStateMachineUtil.evtStart : e == STOP ? LifecycleStateMachineUtil.evtStop
            : e == ERROR ? LifecycleStateMachineUtil.evtError : LifecycleStateMachineUtil.evtComplete;
      }
      m.fire(ev);
      steps.run(2);
      int t = next(s, e);
      if (t >= 0) {
        restarted |= s == STOPPED && t == STARTING;
        s = t;
        expected[s]++;
        if (s == STOPPED) {
          expected[END]++;
        } else if (s == END) {
          expected[END]--;
        }
      }
      Sym.check("the documented table", m.getCurrentState().getName().equals(STATES[s]));
      Sym.check("ends exactly from stopped", m.isEnded() == (s == END));
    }
    for (int i = 0; i < 5; i++) {
      Sym.check("entry actions run once per entry", entries[i] == expected[i]);
    }
    Sym.check("all entry actions of a state run", entries[END] == entries[STOPPED]);
    Sym.cover("table: end", s == END);
    Sym.cover("table: restarted", restarted);
    Sym.cover("table: stopping fails", s == STOPPED && expected[STOPPING] > 0);
  }

  @Check(bounds = "every history of 6 events among start, complete, stop, error and one that is not mapped, given to a machine built with LifecycleStateMachineUtil; the constants", covers = {
      "table: end", "table: restarted", "table: stopping fails"})
  public static void lifecycleTable() {
    table(6, false);
  }

  @Check(bounds = "every history of 12 events equal to the constants", quick = false, covers = {"table: end",
      "table: restarted", "table: stopping fails"})
  public static void longTable() {
    table(12, true);
  }

  static void invariants(Apps.App a) {
    Sym.check("subsystems start and stop in order, once each", !a.wrongOrder);
    Sym.check("subsystems get the app's context", !a.wrongContext);
    Sym.check("started or stopped only after all subsystems are", !a.early);
  }

  /**
   * An app in either mode; rounds times: started (failing at any subsystem or not), then stopped (failing at any or
   * not) or given an error.
   */
  static void app(int n, int rounds) {
    boolean exit = Sym.bool("exit on stop");
    Apps.App a = new Apps.App(n, exit);
    a.equal = Sym.bool("subsystems equal");
    String down = exit ? "_END_" : "STOPPED";
    boolean restartedAfterFailure = false;
    boolean failed = false;
    for (int r = 0; r < rounds; r++) {
      a.failStart = Sym.pick("failing start" + r, 6);
      a.failStop = Sym.pick("failing stop" + r, 6);
      Sym.assume(a.failStart <= n && a.failStop <= n);
      int starts = a.starts;
      int stops = a.stops;
      int attempts = a.attempts;
      if (r == 0) {
        Sched.spawn(() -> a.first());
      } else {
        restartedAfterFailure |= failed;
        Sym.check("a stopped app can be started again", a.tryStart());
      }
      Sched.awaitQuiescence();
      invariants(a);
      if (a.failStart < n) {
        Sym.check("the subsystems before the failing one are started, later ones are not",
            a.starts == starts + a.failStart && a.attempts == attempts + a.failStart + 1);
        Sym.check("a failing start takes the app to stopped", a.state().equals(down));
        Sym.cover("app: last subsystem fails to start", a.failStart == n - 1);
        failed = true;
      } else {
        Sym.check("all subsystems are started once", a.starts == starts + n && a.attempts == attempts + n);
        Sym.check("started", a.state().equals("STARTED"));
        if (Sym.bool("error" + r)) {
          a.error(new IllegalArgumentException());
          Sched.awaitQuiescence();
          failed = false;
          Sym.check("an error takes the app to stopped", a.state().equals(down));
        } else {
          attempts = a.stopAttempts;
          a.stop();
          Sched.awaitQuiescence();
          invariants(a);
          if (a.failStop < n) {
            Sym.cover("app: first to stop fails", a.failStop == n - 1);
            Sym.check("the subsystems after the failing one are stopped", a.stops >= stops + n - 1 - a.failStop);
            failed = true;
          } else {
            Sym.check("all subsystems are stopped once", a.stops == stops + n && a.stopAttempts == attempts + n);
            failed = false;
            Sym.cover("app: stopped", true);
          }
          Sym.check("stop takes the app to stopped, also when a subsystem fails", a.state().equals(down));
        }
      }
      if (exit) {
        return;
      }
    }
    Sym.cover("app: restarted after a failure", restartedAfterFailure);
  }

  @Check(bounds = "3 subsystems, equal to each other or not; started twice; any subsystem failing to start or stop each time; stop or error; both exit modes", covers = {
      "app: last subsystem fails to start", "app: first to stop fails", "app: stopped", "app: restarted after a failure"})
  public static void threeSubsystems() {
    app(3, 2);
  }

  @Check(bounds = "0, 1 or 2 subsystems, equal to each other or not; started once", covers = {"app: stopped"})
  public static void fewSubsystems() {
    app(Sym.split("n", 3), 1);
  }

  @Check(bounds = "5 subsystems; started 3 times", quick = false, covers = {"app: last subsystem fails to start",
      "app: first to stop fails", "app: stopped", "app: restarted after a failure"})
  public static void moreSubsystems() {
    app(5, 3);
  }

  /** A subsystem reports an error while the app starts or stops. */
  static void erring(int n) {
    boolean exit = Sym.bool("exit on stop");
    String down = exit ? "_END_" : "STOPPED";
    Apps.App a = new Apps.App(n, exit);
    a.during = Sym.pick("reporting", n);
    boolean starting = Sym.bool("while starting");
    int k = Sym.range("errors", 1, 2);
    Runnable report = () -> {
      a.error(new IllegalArgumentException());
      if (k > 1) {
        a.error(new IllegalArgumentException());
      }
    };
    if (starting) {
      a.duringStart = report;
    } else {
      a.duringStop = report;
    }
    Sched.spawn(() -> a.first());
    Sched.awaitQuiescence();
    invariants(a);
    if (starting) {
      Sym.check("an error while starting takes the app to stopped", a.state().equals(down));
      Sym.cover("error while starting", a.starts == n);
    } else {
      Sym.check("started", a.state().equals("STARTED") && a.starts == n);
      a.stop();
      Sched.awaitQuiescence();
      invariants(a);
      Sym.check("an error while stopping takes the app to stopped", a.state().equals(down));
      Sym.cover("error while stopping", a.stops == n);
    }
    if (!exit) {
      a.duringStart = null;
      int starts = a.starts;
      Sym.check("a stopped app can be started again", a.tryStart());
      Sched.awaitQuiescence();
      invariants(a);
      Sym.check("no event is left over", a.state().equals("STARTED") && a.starts == starts + n);
    }
  }

  @Check(bounds = "3 subsystems, any of which reports 1 or 2 errors while starting or while stopping; both exit modes", covers = {
      "error while starting", "error while stopping"})
  public static void reportedErrors() {
    erring(3);
  }
}
