package verif.h;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.MultiConsumerStateMachineListener;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory.Config;
import java.util.List;
import verif.rt.Check;
import verif.rt.Sched;
import verif.rt.Sym;

/**
 * C24: what one thread does is visible to the others. Decided by the engine (races = true): in no reachable state two
 * threads are both about to access the same field of the library, one of them writing, unless the field is volatile.
 */
public class C24 {
  static final class Quiet implements StateMachineListener<Object, Object> {
    int n;

    @Override
    public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
      n++;
    }

    @Override
    public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
      n++;
    }
  }

  static GenericStateMachine<Object, Object> machine(boolean drop, int max) {
    return machine(drop, max, new Flow());
  }

  static GenericStateMachine<Object, Object> machine(boolean drop, int max, Flow flow) {
    Config<Object, Object> c = Mk.cfg().withUnmappedEventHandler(flow).withUnexpectedFlowListener(flow).withMaxQueueSize(max);
    GenericStateMachine<Object, Object> m = drop ? Mk.dropMachine(c) : Mk.machine(c);
    NamedState<Object, Object> a = Mk.st("A");
    NamedState<Object, Object> b = Mk.st("B");
    a.appendExitActions((e, sm) -> sm.getCurrentState());
    b.appendEntryActions((e, sm) -> sm.getEventQueueSize());
    m.initialSate(a).receives(Mk.ev("e")).itTransitionsTo(b);
    m.when(a).receives(Mk.ev("n")).itDoesNotTransition();
    m.when(a).receives(Mk.ev("x")).itEnds();
    m.when(b).receives(Mk.ev("e")).itTransitionsTo(a);
    m.when(b).receives(Mk.ev("x")).itEnds();
    return m;
  }

  static final String[] EVENTS = {"e", "n", "x", "unmapped"};

  static boolean ask(GenericStateMachine<Object, Object> m) {
    State<Object, Object> s = m.getCurrentState();
    boolean b = m.isStarted() | m.isEnded() | m.getEventQueueSize() > 0 | m.getContext() != null;
    return b | s == null;
  }

  @Check(races = true, bounds = "one client fires an event (transition, non-transition, end, unmapped), another thread asks the machine everything; both strategies; bounded or not", covers = "asked meanwhile")
  public static void observer() {
    GenericStateMachine<Object, Object> m = machine(Sym.split("drop", 2) == 1, Sym.split("max", 2) == 0 ? -1 : 1);
    String e = EVENTS[Sym.split("event", EVENTS.length)];
    m.start();
    boolean[] done = new boolean[1];
    m.setStateMachineListener(new Quiet());
    Sched.spawn(() -> {
      ask(m);
      done[0] = true;
    });
    m.fire(Mk.ev(e, "p"));
    boolean asked = done[0];
    Sched.awaitQuiescence();
    Sym.check("answered", done[0]);
    Sym.cover("asked meanwhile", asked);
  }

  @Check(races = true, bounds = "two clients fire an event each (any of 4, with payloads), both strategies, bounded or not")
  public static void clients() {
    GenericStateMachine<Object, Object> m = machine(Sym.split("drop", 2) == 1, Sym.split("max", 2) == 0 ? -1 : 1);
    String e = EVENTS[Sym.split("first", EVENTS.length)];
    String f = EVENTS[Sym.split("second", EVENTS.length)];
    m.start();
    Sched.spawn(() -> m.fire(Mk.ev(e, "p")));
    Sched.spawn(() -> m.fire(Mk.ev(f, "q")));
    Sched.awaitQuiescence();
    Sym.check("worked", m.getEventQueueSize() == 0);
  }

  @Check(races = true, bounds = "one thread starts the machine (start or startInState) and fires, another one asks, stops it or fires")
  public static void starter() {
    GenericStateMachine<Object, Object> m = machine(false, -1);
    boolean in = Sym.split("start in state", 2) == 1;
    int other = Sym.split("other", 4);
    Sched.spawn(() -> {
      try {
        if (in) {
          m.startInState(Mk.st("B"));
        } else {
          m.start();
        }
      } catch (IllegalStateException x) {
        // refused
      }
      m.fire(Mk.ev("e"));
    });
    Sched.spawn(() -> {
      if (other == 0) {
        ask(m);
      } else if (other == 1) {
        m.stop();
      } else if (other == 2) {
        m.fire(Mk.ev("e"));
      } else {
        try {
          m.start();
        } catch (IllegalStateException x) {
          // refused
        }
      }
    });
    Sched.awaitQuiescence();
    Sym.check("started", m.isStarted());
  }

  @Check(races = true, bounds = "a thread stops the machine or replaces its listener while an event is worked on and a third one asks")
  public static void stopper() {
    GenericStateMachine<Object, Object> m = machine(false, -1);
    boolean stop = Sym.split("stop", 2) == 1;
    m.start();
    m.fire(Mk.ev("e"));
    Sched.spawn(() -> {
      if (stop) {
        m.stop();
      } else {
        m.setStateMachineListener(new Quiet());
      }
    });
    Sched.spawn(() -> ask(m));
    Sched.awaitQuiescence();
    Sym.check("stopped", m.isEnded() == stop);
  }

  @Check(races = true, bounds = "a thread sets, replaces or removes the listener while two events are worked on, the second one fired later; every interleaving", covers = {
      "told of one notification only", "both told"})
  public static void listener() {
    Flow flow = new Flow();
    GenericStateMachine<Object, Object> m = machine(false, -1, flow);
    boolean had = Sym.split("had one", 2) == 1;
    boolean gets = Sym.split("gets one", 2) == 1;
    Quiet one = new Quiet();
    Quiet two = new Quiet();
    m.startInState(Mk.st("A"));
    if (had) {
      m.setStateMachineListener(one);
    }
    m.fire(Mk.ev("e"));
    Sched.spawn(() -> {
      m.setStateMachineListener(gets ? two : null);
      m.fire(Mk.ev("e"));
    });
    Sched.awaitQuiescence();
    Sym.check("every notification goes to the listener of that moment", one.n <= (had ? 2 : 0)
        && (gets ? two.n >= 2 && two.n <= 4 && (!had || one.n + two.n == 4) : two.n == 0));
    Sym.check("processing is not disturbed", flow.errors == 0 && m.getCurrentState().getName().equals("A"));
    Sym.cover("told of one notification only", one.n == 1);
    Sym.cover("both told", one.n == 2 && two.n == 2);
  }

  @Check(races = true, bounds = "an app with one subsystem is started, stopped and started again or ended by threads of their own while another thread asks for its state, or is started by one thread while another asks and reports an error; both exit modes", covers = "asked meanwhile")
  public static void app() {
    Apps.App a = new Apps.App(1, Sym.split("exit", 2) == 1);
    boolean fails = Sym.split("error", 2) == 1;
    Sched.spawn(a::first);
    boolean[] asked = new boolean[1];
    Sched.spawn(() -> {
      asked[0] = a.state() != null && !a.returned;
      a.getAppContext();
      if (fails) {
        a.error(null);
      }
    });
    if (!fails) {
      Sched.spawn(() -> {
        a.tryStop();
        a.tryStart();
      });
    }
    Sched.awaitQuiescence();
    Sym.check("no other exception", !a.otherException);
    Sym.cover("asked meanwhile", asked[0]);
  }

  @Check(races = true, bounds = "one thread gives an app context its options while another reads them")
  public static void context() {
    Apps.Ctx c = new Apps.Ctx();
    Sched.spawn(() -> c.withAppThreadName("t").withSubsystems(List.of()));
    Sched.spawn(() -> {
      c.getAppThreadName();
      c.getSubsystems();
      c.getInitArgs();
    });
    Sched.awaitQuiescence();
    Sym.check("kept", c.getAppThreadName().equals("t"));
  }

  @Check(races = true, bounds = "one thread adds and removes listeners of a fan-out listener while another notifies, then adds and removes")
  public static void fanOut() {
    MultiConsumerStateMachineListener<Object, Object> mc = new MultiConsumerStateMachineListener<>();
    Quiet one = new Quiet();
    Quiet two = new Quiet();
    mc.add(one);
    NamedState<Object, Object> a = Mk.st("A");
    Sched.spawn(() -> {
      mc.add(two);
      mc.remove(one);
    });
    Sched.spawn(() -> {
      mc.onStateChangeBegin(a, Mk.ev("e"), a);
      mc.onStateChangeEnd(a, Mk.ev("e"), a);
      mc.add(new Quiet());
      mc.remove(two);
    });
    Sched.awaitQuiescence();
    Sym.check("removed", !mc.remove(one));
  }
}
