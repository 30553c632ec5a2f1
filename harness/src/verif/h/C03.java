package verif.h;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import verif.rt.Check;
import verif.rt.Sched;
import verif.rt.Sym;

/** C03: the listener brackets every transition exactly once, truthfully. */
public class C03 {
  static void run(int events, int fires) {
    Rig r = new Rig(events, true, true);
    r.actions(false);
    r.listen(Sym.pick("listener", 2));
    r.start();
    for (int i = 0; i < fires; i++) {
      boolean was = r.ended;
      if (Sym.bool("replace" + i)) {
        r.listen(Sym.bool("none" + i) ? 0 : 2 + i);
      }
      r.event(i);
      if (i == fires - 1) {
        Sym.cover("replaced listener told of a transition", !was && r.listener == 2 + i && r.n > 3);
        Sym.cover("no listener", !was && r.listener == 0 && r.n > 2);
        Sym.cover("no transition reported", !was && r.n == 2);
        Sym.cover("nothing reported after the end", was && r.listener > 0);
        Sym.cover("end reported", !was && r.ended && r.listener > 0);
      }
    }
    r.n = 0;
    r.pos = 0;
    r.m.stop();
    Sym.check("stop is not reported", r.pos == 0 && !r.wrong);
  }

  @Check(bounds = "every table over 3 states x 1 event (+1 unmapped event, +1 unconfigured target; cells as in C01), two entry and two exit actions per state; listener present, absent or replaced before each event; start() or startInState; every history of 2 events, then stop()",
      covers = {"replaced listener told of a transition", "no listener", "no transition reported",
          "nothing reported after the end", "end reported"})
  public static void brackets() {
    run(1, 2);
  }

  @Check(bounds = "every table over 3 states x 2 events, histories of 3 events", covers = {
      "replaced listener told of a transition", "no listener", "no transition reported",
      "nothing reported after the end", "end reported"}, quick = false)
  public static void longer() {
    run(2, 3);
  }

  @Check(bounds = "listener given to the builder; rejected fires before start and after the end", covers = {"told"})
  public static void builder() {
    int[] n = new int[2];
    StateMachineListener<Object, Object> l = new StateMachineListener<>() {
      @Override
      public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
        n[0]++;
      }

      @Override
      public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
        n[1]++;
      }
    };
    Steps steps = new Steps();
    Flow flow = new Flow();
    GenericStateMachine<Object, Object> m = new GenericStateMachine.Builder<Object, Object>()
        .setStateMachineListener(l).setEventProcessingStrategy(EventProcessingStrategyFactory.createDefaultStrategy(
            Mk.cfg().withExecutor(steps).withUnexpectedFlowListener(flow).withUnmappedEventHandler(flow))).build();
    m.initialSate(Mk.st("A")).receives(Mk.ev("e")).itTransitionsTo(Mk.st("A"));
    boolean early = Sym.bool("early");
    if (early) {
      m.fire(Mk.ev("e"));
      steps.run(2);
    }
    Sym.check("a rejected event is not reported to the listener", n[0] == 0 && n[1] == 0);
    m.start();
    Sym.check("initial entry reported once", n[0] == 1 && n[1] == 1);
    m.fire(Mk.ev("e"));
    steps.run(2);
    Sym.check("transition reported once", n[0] == 2 && n[1] == 2);
    m.stop();
    m.fire(Mk.ev("e"));
    steps.run(2);
    Sym.check("after the end nothing is reported", n[0] == 2 && n[1] == 2);
    Sym.cover("told", early);
  }

  /** Keeps the open transition and counts. */
  static final class Brackets implements StateMachineListener<Object, Object> {
    State<Object, Object> from, to;
    StateEvent<Object> event;
    int begins, ends;
    boolean open, wrong;
    Runnable inBegin;

    @Override
    public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
      wrong |= open;
      open = true;
      begins++;
      from = f;
      event = e;
      to = t;
      if (inBegin != null) {
        inBegin.run();
      }
    }

    @Override
    public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
      wrong |= !open || !f.equals(from) || !e.equals(event) || !t.equals(to);
      open = false;
      ends++;
    }
  }

  /** A transition (0), self transition (1), end (2), non-transition (3) or terminal target (4) and a stop in the middle of it. */
  static GenericStateMachine<Object, Object> stoppable(GenericStateMachine<Object, Object> m, Brackets l, Runnable[] at, int kind) {
    NamedState<Object, Object> a = Mk.st("A");
    NamedState<Object, Object> b = Mk.st("B");
    a.appendExitActions((e, sm) -> at[0].run());
    a.appendEntryActions((e, sm) -> at[1].run());
    b.appendEntryActions((e, sm) -> at[1].run());
    m.initialSate(a).receives(Mk.ev("e"));
    if (kind == 0 || kind == 4) {
      m.itTransitionsTo(b);
    } else if (kind == 1) {
      m.itTransitionsTo(a);
    } else if (kind == 2) {
      m.itEnds();
    } else {
      m.itDoesNotTransition();
    }
    if (kind != 4) {
      m.when(b).receives(Mk.ev("e")).itTransitionsTo(a);
    }
    m.startInState(a);
    m.setStateMachineListener(l);
    return m;
  }

  @Check(bounds = "a machine stopped by the begin notification, an exit action or an entry action of a transition, self transition, ending or non-transition", covers = {
      "stopped by an exit action", "stopped by an entry action", "not stopped"})
  public static void stoppedMeanwhile() {
    Steps steps = new Steps();
    Flow flow = new Flow();
    Brackets l = new Brackets();
    Runnable[] at = new Runnable[2];
    int kind = Sym.split("kind", 5);
    int when = Sym.split("when", 4);
    GenericStateMachine<Object, Object> m = stoppable(Mk.machine(steps, flow), l, at, kind);
    Runnable no = () -> {
    };
    Runnable stop = () -> m.stop();
    l.inBegin = when == 0 ? stop : no;
    at[0] = when == 1 ? stop : no;
    at[1] = when == 2 ? stop : no;
    m.fire(Mk.ev("e"));
    steps.run(2);
    Sym.check("one begin and one end notification that name the same source, event and target", l.begins == 1 && l.ends == 1
        && !l.wrong && !l.open && l.from.getName().equals("A") && l.event.getName().equals("e")
        && l.to.getName().equals(kind == 0 || kind == 4 ? "B" : kind == 1 ? "A" : kind == 2 ? "_END_" : "_NOOP_"));
    Sym.check("nothing else is reported", flow.errors == 0 && flow.unmapped == 0);
    Sym.cover("stopped by an exit action", when == 1 && kind == 1 && m.isEnded());
    Sym.cover("stopped by an entry action", when == 2 && kind == 0 && m.isEnded());
    Sym.cover("not stopped", when == 3 && kind == 0 && !m.isEnded());
  }

  @Check(bounds = "a machine stopped by the begin notification or an entry action of its initial entry, or by another thread at any moment of start()", covers = {
      "stopped by an entry action", "stopped by a thread", "not stopped"})
  public static void stoppedInitially() {
    Steps steps = new Steps();
    Flow flow = new Flow();
    Brackets l = new Brackets();
    int when = Sym.split("when", 4);
    int kind = Sym.split("kind", 2);
    boolean[] meanwhile = new boolean[1];
    GenericStateMachine<Object, Object> m = Mk.machine(steps, flow);
    NamedState<Object, Object> a = Mk.st("A");
    if (kind == 0) {
      m.initialSate(a).receives(Mk.ev("e")).itTransitionsTo(Mk.st("B"));
    } else {
      m.initialSate(a).itEnds();
    }
    m.setStateMachineListener(l);
    if (when == 0) {
      l.inBegin = () -> m.stop();
    }
    a.appendEntryActions((e, sm) -> {
      if (when == 1) {
        m.stop();
      }
      Sched.point();
      meanwhile[0] = m.isEnded();
    });
    if (when == 2) {
      Sched.spawn(() -> m.stop());
    }
    m.start();
    Sched.awaitQuiescence();
    Sym.check("one begin and one end notification that name the same source, event and target", l.begins == 1 && l.ends == 1
        && !l.wrong && !l.open && l.from.getName().equals("_UNINITIALISED_") && l.event.getName().equals("_immediate_")
        && l.to.getName().equals("A"));
    Sym.check("nothing else is reported", flow.total() == 0);
    Sym.cover("stopped by an entry action", when == 1 && m.isEnded());
    Sym.cover("stopped by a thread", when == 2 && kind == 0 && meanwhile[0]);
    Sym.cover("not stopped", when == 3 && kind == 0 && !m.isEnded());
  }

  @Check(bounds = "a machine stopped by another thread at any moment of a transition, self transition, ending or non-transition", covers = "stopped meanwhile")
  public static void stoppedByThread() {
    Flow flow = new Flow();
    Brackets l = new Brackets();
    boolean[] stopped = new boolean[1];
    boolean[] meanwhile = new boolean[1];
    Runnable[] at = new Runnable[2];
    int kind = Sym.split("kind", 5);
    GenericStateMachine<Object, Object> m = stoppable(Mk.machine(Mk.cfg().withUnexpectedFlowListener(flow)
        .withUnmappedEventHandler(flow)), l, at, kind);
    at[0] = () -> Sched.point();
    at[1] = () -> {
      Sched.point();
      meanwhile[0] |= stopped[0];
    };
    l.inBegin = at[1];
    m.fire(Mk.ev("e"));
    Sched.spawn(() -> {
      m.stop();
      stopped[0] = true;
    });
    Sched.awaitQuiescence();
    Sym.check("one begin and one end notification that name the same source, event and target, unless the machine was stopped first",
        l.begins <= 1 && l.ends == l.begins && !l.wrong && !l.open);
    Sym.check("nothing fails", flow.errors == 0 && m.isEnded());
    Sym.cover("stopped meanwhile", meanwhile[0] && l.ends == 1);
  }

  /** Counts what it is told. */
  static final class Told implements StateMachineListener<Object, Object> {
    int begins, ends;

    @Override
    public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
      begins++;
      Sched.point();
    }

    @Override
    public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
      ends++;
    }
  }

  @Check(bounds = "a listener is set, replaced or removed by another thread at any moment of the work of one event (transition, self transition, non-transition, end); every interleaving", covers = {
      "begin only", "begin and end", "told nothing"})
  public static void replacedByThread() {
    boolean had = Sym.split("had one", 2) == 1;
    boolean gets = Sym.split("gets one", 2) == 1;
    int kind = Sym.split("kind", 4);
    Flow flow = new Flow();
    Told one = new Told();
    Told two = new Told();
    int[] works = new int[2];
    GenericStateMachine<Object, Object> m = Mk.machine(Mk.cfg().withUnmappedEventHandler(flow).withUnexpectedFlowListener(flow));
    NamedState<Object, Object> a = Mk.st("A");
    NamedState<Object, Object> b = Mk.st("B");
    a.appendExitActions((e, sm) -> works[0]++);
    b.appendEntryActions((e, sm) -> works[1]++);
    m.initialSate(a);
    if (kind == 0) {
      m.receives(Mk.ev("e")).itTransitionsTo(b);
    } else if (kind == 1) {
      m.receives(Mk.ev("e")).itTransitionsTo(a);
    } else if (kind == 2) {
      m.receives(Mk.ev("e")).itDoesNotTransition();
    } else {
      m.receives(Mk.ev("e")).itEnds();
    }
    m.when(b).receives(Mk.ev("e")).itTransitionsTo(a);
    m.startInState(a);
    if (had) {
      m.setStateMachineListener(one);
    }
    m.fire(Mk.ev("e"));
    Sched.spawn(() -> m.setStateMachineListener(gets ? two : null));
    Sched.awaitQuiescence();
    Sym.check("each notification goes to at most one listener", one.begins + two.begins <= 1 && one.ends + two.ends <= 1);
    Sym.check("a listener that has been set is told", !had || !gets || one.begins + two.begins == 1 && one.ends + two.ends == 1);
    Sym.check("nothing fails", flow.errors == 0 && flow.total() == 0);
    Sym.check("the event is processed", works[0] == (kind == 2 ? 0 : 1) && works[1] == (kind == 0 ? 1 : 0)
        && m.getCurrentState().getName().equals(kind == 0 ? "B" : kind == 3 ? "_END_" : "A"));
    Sym.cover("begin only", one.begins == 1 && one.ends == 0);
    Sym.cover("begin and end", one.begins == 1 && one.ends == 1);
    Sym.cover("told nothing", had && one.begins + one.ends + two.begins + two.ends == 0);
  }
}
