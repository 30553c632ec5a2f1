package verif.h;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.api.StateMachineListener;
import verif.rt.Check;
import verif.rt.Sched;
import verif.rt.Sym;

/** C07: ended is final. */
public class C07 {
  /** Observes the callbacks of a machine; may stop it from one of them. */
  static final class Obs implements StateMachineListener<Object, Object> {
    GenericStateMachine<Object, Object> m;
    int calls, begins, lateBegins, stopAt;
    boolean inside, stopped, insideAtStop;
    boolean interruptible;

    void call(int where) {
      calls++;
      if (stopped) {
        Sym.check("the current state is the end state in every later callback", C07.final1(m));
      }
      if (where == stopAt) {
        m.stop();
        Sym.check("stop takes effect immediately", C07.final1(m));
      }
      if (interruptible) {
        Sched.point();
      }
    }

    @Override
    public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
      begins++;
      if (stopped) {
        lateBegins++;
      }
      inside = true;
      call(1);
    }

    @Override
    public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
      call(4);
      inside = false;
    }

    void exit(StateEvent<Object> e, StateMachine<Object, Object> sm) {
      call(2);
    }

    void entry(StateEvent<Object> e, StateMachine<Object, Object> sm) {
      call(3);
    }
  }

  static boolean final1(GenericStateMachine<Object, Object> m) {
    return m.isStarted() && m.isEnded() && m.getCurrentState().equals(m.getEndState());
  }

  static void configure(GenericStateMachine<Object, Object> m, Obs o, NamedState<Object, Object> a) {
    o.m = m;
    NamedState<Object, Object> b = Mk.st("B");
    NamedState<Object, Object> c = Mk.st("C");
    a.appendEntryActions(o::entry);
    a.appendExitActions(o::exit);
    b.appendEntryActions(o::entry);
    b.appendExitActions(o::exit);
    m.initialSate(a).receives(Mk.ev("e")).itTransitionsTo(b);
    m.when(a).receives(Mk.ev("z")).itEnds();
    m.when(a).receives(Mk.ev("t")).itTransitionsTo(c);
    m.when(b).receives(Mk.ev("e")).itTransitionsTo(a);
    m.when(c).itEnds();
  }

  static void sequential(int len) {
    Steps steps = new Steps();
    Flow flow = new Flow();
    GenericStateMachine<Object, Object> m = Mk.machine(steps, flow);
    NamedState<Object, Object> a = Mk.st("A");
    Obs o = new Obs();
    configure(m, o, a);
    boolean in = Sym.bool("startInState");
    if (in) {
      m.startInState(a);
    } else {
      m.start();
    }
    m.setStateMachineListener(o);
    int how = Sym.pick("how", 3);
    int queued = Sym.pick("queued", 3);
    if (how == 1) {
      m.fire(Mk.ev("z"));
    } else if (how == 2) {
      m.fire(Mk.ev("t"));
    }
    for (int i = 0; i < 2; i++) {
      if (i < queued) {
        m.fire(Mk.ev(Sym.bool("mapped" + i) ? "e" : "u"));
      }
    }
    int calls = o.calls;
    int un = flow.unmapped;
    if (how == 0) {
      m.stop();
      Sym.check("stop takes effect immediately", final1(m));
      o.stopped = true;
      steps.run(3);
      Sym.check("queued events are discarded", o.calls == calls && flow.unmapped == un);
    } else {
      steps.run(3);
      o.stopped = true;
      // begin and end, one exit action
      Sym.check("queued events are discarded", o.calls == calls + 3 && flow.unmapped == un);
    }
    Sym.check("ended", final1(m));
    Sym.check("nothing waits", m.getEventQueueSize() == 0);
    calls = o.calls;
    for (int i = 0; i < len; i++) {
      int op = Sym.pick("op" + i, 6);
      if (op == 0) {
        m.fire(Mk.ev("e"));
      } else if (op == 1) {
        m.fire(Mk.ev("u", flow));
      } else if (op == 2) {
        m.stop();
      } else if (op == 3) {
        steps.run(3);
      } else {
        boolean refused = false;
        try {
          if (op == 4) {
            m.start();
          } else {
            m.startInState(a);
          }
        } catch (IllegalStateException x) {
          refused = true;
        }
        Sym.check("an ended machine cannot be started", refused);
      }
      Sym.check("ended for ever", final1(m));
      Sym.check("nothing happens after the end", o.calls == calls && flow.unmapped == un && flow.errors == 0);
    }
    steps.run(3);
    Sym.check("ended for ever", final1(m));
    Sym.check("nothing happens after the end", o.calls == calls && flow.unmapped == un && flow.errors == 0);
    Sym.cover("stopped with queued events", how == 0 && queued == 2);
    Sym.cover("ended by terminal state with queued events", how == 2 && queued == 2);
  }

  @Check(bounds = "ended by stop, an ending event or a terminal state, with up to 2 queued events; then every history of 3 calls among fire, stop, start, startInState and let-the-executor-run", covers = {
      "stopped with queued events", "ended by terminal state with queued events"})
  public static void afterwards() {
    sequential(3);
  }

  @Check(bounds = "histories of 6 calls after the end", covers = {"stopped with queued events",
      "ended by terminal state with queued events"}, quick = false)
  public static void longAfterwards() {
    sequential(6);
  }

  @Check(bounds = "stop() called from the begin listener, an exit action, an entry action or the end listener of the initial entry or of an event, with up to 2 further events queued", covers = {
      "stopped in the initial entry", "stopped in an event"})
  public static void stopInside() {
    Steps steps = new Steps();
    Flow flow = new Flow();
    GenericStateMachine<Object, Object> m = Mk.machine(steps, flow);
    NamedState<Object, Object> a = Mk.st("A");
    Obs o = new Obs();
    configure(m, o, a);
    m.setStateMachineListener(o);
    boolean init = Sym.bool("in the initial entry");
    int at = Sym.range("at", 1, 4);
    int queued = Sym.pick("queued", 3);
    if (init) {
      o.stopAt = at;
      Sym.assume(at != 2);
    }
    m.start();
    if (init) {
      Sym.check("a stop during start is not undone", final1(m));
    }
    o.stopAt = at;
    int before = o.begins;
    m.fire(Mk.ev("e"));
    for (int i = 0; i < 2; i++) {
      if (i < queued) {
        m.fire(Mk.ev("e"));
      }
    }
    steps.run(4);
    Sym.check("only the event in progress is worked on", o.begins == before + (init ? 0 : 1));
    Sym.check("ended", final1(m));
    Sym.check("queued events are discarded", m.getEventQueueSize() == 0 && flow.after == (init ? 1 + queued : 0));
    int calls = o.calls;
    m.fire(Mk.ev("e"));
    steps.run(2);
    Sym.check("ended for ever", final1(m) && o.calls == calls);
    Sym.cover("stopped in the initial entry", init);
    Sym.cover("stopped in an event", !init && queued == 2);
  }

  static void race(int fires, boolean drop) {
    GenericStateMachine<Object, Object> m = drop ? Mk.dropMachine(Mk.cfg().withUnmappedEventHandler(new Flow())
        .withUnexpectedFlowListener(new Flow())) : Mk.machine(Mk.cfg().withUnmappedEventHandler(new Flow())
        .withUnexpectedFlowListener(new Flow()));
    NamedState<Object, Object> a = Mk.st("A");
    Obs o = new Obs();
    configure(m, o, a);
    m.startInState(a);
    m.setStateMachineListener(o);
    o.interruptible = true;
    int k = Sym.split("second", 3);
    Sched.spawn(() -> {
      m.fire(Mk.ev("e"));
      if (fires > 1) {
        m.fire(Mk.ev(k == 0 ? "e" : k == 1 ? "z" : "t"));
      }
    });
    Sched.point();
    m.stop();
    o.stopped = true;
    o.insideAtStop = o.inside;
    Sym.keep(o.inside ? "stopped inside an event" : "stopped between events");
    Sym.check("stop takes effect immediately", final1(m));
    Sched.point();
    Sym.check("ended for ever", final1(m));
    Sched.awaitQuiescence();
    Sym.check("ended for ever", final1(m));
    Sym.check("no further event is worked on", o.lateBegins + (o.insideAtStop ? 1 : 0) <= 1);
    Sym.check("nothing waits", m.getEventQueueSize() == 0);
    int calls = o.calls;
    m.fire(Mk.ev("e"));
    Sched.awaitQuiescence();
    Sym.check("ended for ever", final1(m) && o.calls == calls);
    Sym.cover("stopped in the middle of an event", o.insideAtStop);
    Sym.cover("stopped before", o.begins == 0);
    Sym.cover("stopped after", o.begins == fires && !o.insideAtStop && o.lateBegins == 0);
  }

  @Check(bounds = "stop() against a thread that fires two events, every callback interruptible; every interleaving", covers = {
      "stopped in the middle of an event", "stopped before", "stopped after"})
  public static void stopRace() {
    race(2, false);
  }

  @Check(bounds = "stop() against a thread that fires one event, drop-duplicate strategy", covers = {
      "stopped in the middle of an event", "stopped before", "stopped after"})
  public static void stopRaceDrop() {
    race(1, true);
  }

  @Check(bounds = "start() against another thread that stops the machine as soon as it sees it started, with an event fired; every interleaving", covers = {
      "stopped after it was seen started", "stopped before it was started"})
  public static void startStop() {
    GenericStateMachine<Object, Object> m = Mk.machine(Mk.cfg().withUnmappedEventHandler(new Flow())
        .withUnexpectedFlowListener(new Flow()));
    NamedState<Object, Object> a = Mk.st("A");
    Obs o = new Obs();
    configure(m, o, a);
    boolean in = Sym.bool("startInState");
    boolean[] seen = new boolean[2];
    Sched.spawn(() -> {
      seen[0] = m.isStarted();
      m.stop();
      if (seen[0]) {
        Sym.check("ended for ever", final1(m));
      }
      seen[1] = true;
    });
    if (in) {
      m.startInState(a);
    } else {
      m.start();
    }
    m.fire(Mk.ev("e"));
    Sched.awaitQuiescence();
    Sym.check("a stop of a started machine is not undone", !seen[0] || final1(m));
    Sym.check("started", m.isStarted());
    Sym.check("ended exactly in the end state", m.isEnded() == m.getCurrentState().equals(m.getEndState()));
    Sym.cover("stopped after it was seen started", seen[0]);
    Sym.cover("stopped before it was started", !seen[0] && !m.isEnded());
  }

  @Check(bounds = "a machine ended by a configured end, the entry of an ending state or stop() while another thread asks whether it has ended and for its state, in this order, twice; every interleaving", covers = {"seen ended", "seen running"})
  public static void observed() {
    int how = Sym.split("how", 3);
    GenericStateMachine<Object, Object> m = Mk.machine(Mk.cfg());
    NamedState<Object, Object> a = Mk.st("A");
    m.initialSate(a).receives(Mk.ev("e")).itEnds();
    m.when(a).receives(Mk.ev("f")).itTransitionsTo(Mk.st("last"));
    m.startInState(a);
    boolean[] ended = new boolean[1];
    boolean[] wrong = new boolean[1];
    Sched.spawn(() -> {
      ended[0] = m.isEnded();
      wrong[0] |= ended[0] && (!m.getCurrentState().equals(m.getEndState()) || !m.isStarted());
      wrong[0] |= ended[0] && !m.isEnded();
    });
    if (how == 0) {
      Sched.spawn(m::stop);
    } else {
      m.fire(Mk.ev(how == 1 ? "e" : "f"));
    }
    Sched.awaitQuiescence();
    Sym.check("a machine seen ended is in the end state", !wrong[0]);
    Sym.check("ended", final1(m));
    Sym.cover("seen ended", ended[0]);
    Sym.cover("seen running", !ended[0]);
  }
}
