package verif.h;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory.Config;
import java.util.concurrent.ConcurrentLinkedQueue;
import verif.rt.Check;
import verif.rt.Sched;
import verif.rt.Sym;

/** C05: transitions are atomic and run to completion. */
public class C05 {
  /** Watches the work of a machine; each piece of work can be interrupted by any other thread. */
  static final class Watch implements StateMachineListener<Object, Object> {
    GenericStateMachine<Object, Object> m;
    StateEvent<Object> busy; // the event whose work is in progress
    int stage; // 0 idle, 1 begun, 2 exit actions, 3 entry actions
    int works;
    String at = "A"; // the state the last completed work led to

    void piece(int st, StateEvent<Object> e) {
      Sym.check("work of two events does not overlap", busy == e && stage <= st && stage > 0);
      stage = st;
      Sched.point();
      Sym.check("not interrupted by other work", busy == e && stage == st);
    }

    @Override
    public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
      Sym.check("begins when no other work is in progress", busy == null);
      Sym.check("begins in the state the previous work led to", f.getName().equals(at));
      busy = e;
      stage = 1;
      works++;
      piece(1, e);
    }

    @Override
    public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
      piece(4, e);
      busy = null;
      stage = 0;
      if (!t.getName().equals("_NOOP_")) {
        at = t.getName();
      }
    }

    void exit(StateEvent<Object> e, StateMachine<Object, Object> sm) {
      piece(2, e);
    }

    void entry(StateEvent<Object> e, StateMachine<Object, Object> sm) {
      piece(3, e);
    }
  }

  static GenericStateMachine<Object, Object> machine(Watch w, boolean drop) {
    Flow flow = new Flow();
    GenericStateMachine<Object, Object> m = drop ? Mk.dropMachine(Mk.cfg().withUnmappedEventHandler(flow))
        : Mk.machine(Mk.cfg().withUnmappedEventHandler(flow));
    return wired(w, m);
  }

  static GenericStateMachine<Object, Object> wired(Watch w, GenericStateMachine<Object, Object> m) {
    w.m = m;
    NamedState<Object, Object> a = Mk.st("A");
    NamedState<Object, Object> b = Mk.st("B");
    for (NamedState<Object, Object> s : new NamedState[] {a, b}) {
      s.appendEntryActions(w::entry);
      s.appendExitActions(w::exit);
    }
    m.initialSate(a).receives(Mk.ev("e")).itTransitionsTo(b);
    m.when(a).receives(Mk.ev("f")).itTransitionsTo(a);
    m.when(b).receives(Mk.ev("e")).itTransitionsTo(a);
    m.when(b).receives(Mk.ev("f")).itDoesNotTransition();
    return m;
  }

  static void clients(boolean drop, int n, boolean two) {
    Watch w = new Watch();
    GenericStateMachine<Object, Object> m = machine(w, drop);
    m.startInState(Mk.st("A"));
    m.setStateMachineListener(w);
    String x = Sym.split("first", 2) == 1 ? "e" : "f";
    String y = Sym.split("second", 2) == 1 ? "e" : "f";
    Sched.spawn(() -> {
      m.fire(Mk.ev(x));
      if (two) {
        m.fire(Mk.ev(y));
      }
    });
    if (n > 1) {
      Sched.spawn(() -> m.fire(Mk.ev(y)));
    }
    Sched.awaitQuiescence();
    Sym.check("completed", w.busy == null && m.getEventQueueSize() == 0);
    Sym.check("final state is where the work led to", m.getCurrentState().getName().equals(w.at));
    Sym.cover("several events worked on", w.works > 1);
  }

  @Check(bounds = "two client threads firing one event each (any of two events), every callback interruptible; every interleaving", covers = "several events worked on")
  public static void twoClients() {
    clients(false, 2, false);
  }

  @Check(bounds = "drop-duplicate strategy, two client threads firing one event each", covers = "several events worked on")
  public static void twoClientsDrop() {
    clients(true, 2, false);
  }

  @Check(bounds = "default executor with every other option: maximum none, 0 to 3 or large, thread name, own queue, either strategy; three events fired by one thread; every interleaving", covers = "several events worked on")
  public static void options() {
    int[] maxes = {-1, 0, 1, 2, 3, 1000};
    Config<Object, Object> c = Mk.cfg().withMaxQueueSize(maxes[Sym.split("max", maxes.length)]);
    if (Sym.split("thread name", 2) == 1) {
      c.withThreadName("w");
    }
    if (Sym.split("own queue", 2) == 1) {
      c.withEventQueue(new ConcurrentLinkedQueue<>());
    }
    boolean drop = Sym.split("drop", 2) == 1;
    Flow flow = new Flow();
    c.withUnmappedEventHandler(flow).withUnexpectedFlowListener(flow);
    Watch w = new Watch();
    GenericStateMachine<Object, Object> m = wired(w, drop ? Mk.dropMachine(c) : Mk.machine(c));
    m.startInState(Mk.st("A"));
    m.setStateMachineListener(w);
    m.fire(Mk.ev("e"));
    m.fire(Mk.ev("f"));
    m.fire(Mk.ev("e"));
    Sched.awaitQuiescence();
    Sym.check("completed", w.busy == null && m.getEventQueueSize() == 0);
    Sym.check("final state is where the work led to", m.getCurrentState().getName().equals(w.at));
    Sym.cover("several events worked on", w.works > 1);
  }

  @Check(bounds = "two client threads firing two and one events", covers = "several events worked on", quick = false)
  public static void threeEvents() {
    clients(false, 2, true);
  }

  @Check(bounds = "events fired from exit action, entry action, begin and end listener (any subset), with a client thread firing too", covers = {"fired from inside"})
  public static void fromInside() {
    Watch w = new Watch();
    int from = Sym.split("from", 5);
    int[] done = new int[1];
    StateMachineListener<Object, Object> l = new StateMachineListener<>() {
      @Override
      public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
        w.onStateChangeBegin(f, e, t);
        again(1);
        w.piece(1, e);
      }

      @Override
      public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
        again(4);
        w.onStateChangeEnd(f, e, t);
      }

      private void again(int k) {
        if (from == k && done[0] == 0) {
          done[0] = 1;
          w.m.fire(Mk.ev("e"));
        }
      }
    };
    GenericStateMachine<Object, Object> m = machine(w, false);
    // states of the same name carry the actions that fire
    m.startInState(Mk.st("A"));
    m.setStateMachineListener(l);
    Sched.spawn(() -> m.fire(Mk.ev("e")));
    if (from == 0) {
      m.fire(Mk.ev("e"));
    }
    Sched.awaitQuiescence();
    Sym.check("completed", w.busy == null && m.getEventQueueSize() == 0);
    Sym.check("every event worked on", w.works == (from == 0 || done[0] == 1 ? 2 : 1));
    Sym.check("final state is where the work led to", m.getCurrentState().getName().equals(w.at));
    Sym.cover("fired from inside", w.works == 2 && from == 4);
  }

  @Check(bounds = "an exit or entry action fires an event, another thread fires one; every interleaving", covers = "three events")
  public static void fromActions() {
    Watch w = new Watch();
    boolean exit = Sym.bool("from exit action");
    int[] done = new int[1];
    GenericStateMachine<Object, Object> m = Mk.machine(Mk.cfg());
    w.m = m;
    NamedState<Object, Object> a = Mk.st("A");
    NamedState<Object, Object> b = Mk.st("B");
    a.appendExitActions((e, sm) -> {
      if (exit && done[0]++ == 0) {
        sm.fire(Mk.ev("e"));
      }
    }, w::exit);
    b.appendEntryActions((e, sm) -> {
      if (!exit && done[0]++ == 0) {
        sm.fire(Mk.ev("e"));
      }
    }, w::entry);
    a.appendEntryActions(w::entry);
    b.appendExitActions(w::exit);
    m.initialSate(a).receives(Mk.ev("e")).itTransitionsTo(b);
    m.when(b).receives(Mk.ev("e")).itTransitionsTo(a);
    m.startInState(a);
    m.setStateMachineListener(w);
    Sched.spawn(() -> m.fire(Mk.ev("e")));
    m.fire(Mk.ev("e"));
    Sched.awaitQuiescence();
    Sym.check("three events worked on, one after the other", w.works == 3 && w.busy == null && w.at.equals("B"));
    Sym.cover("three events", m.getCurrentState().getName().equals("B"));
  }

  @Check(bounds = "start() with an event fired from inside the initial entry action or by another thread meanwhile; every interleaving", covers = "initial entry and one event")
  public static void initialEntry() {
    boolean inside = Sym.bool("from inside");
    boolean[] initial = new boolean[1];
    int[] n = new int[2];
    GenericStateMachine<Object, Object> m = Mk.machine(Mk.cfg().withUnexpectedFlowListener(new Flow()));
    NamedState<Object, Object> a = Mk.st("A");
    NamedState<Object, Object> b = Mk.st("B");
    a.appendEntryActions((e, sm) -> {
      initial[0] = true;
      if (inside) {
        sm.fire(Mk.ev("e"));
      }
      Sched.point();
      initial[0] = false;
      n[0]++;
    });
    b.appendEntryActions((e, sm) -> {
      Sym.check("the initial entry is not overlapped by the first event", !initial[0]);
      n[1]++;
    });
    m.initialSate(a).receives(Mk.ev("e")).itTransitionsTo(b);
    m.when(b).receives(Mk.ev("f")).itTransitionsTo(a);
    if (!inside) {
      Sched.spawn(() -> m.fire(Mk.ev("e")));
    }
    m.start();
    Sched.awaitQuiescence();
    Sym.cover("initial entry and one event", n[0] == 1 && n[1] == 1);
  }

  @Check(bounds = "1100 events, mapped or not, fired from inside the processing of one; default executor", covers = "mapped", steps = 20000)
  public static void backlog() {
    boolean mapped = Sym.split("mapped", 2) == 1;
    Backlog b = new Backlog(1100, -1, mapped, false, null, "the work of two events does not overlap");
    Sym.check("an event fired from inside is processed after the current one", b.seen == 1100 && b.disorder == 0);
    b.quiet();
    Sym.cover("mapped", mapped);
  }
}
