package verif.h;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory.Config;
import verif.rt.Check;
import verif.rt.Sched;
import verif.rt.Sym;

/** C12: an event is processed with the payload it was fired with. */
public class C12 {
  /** Expects every callback of the n-th event worked on to carry the payload noted when it was fired. */
  static final class Seen implements StateMachineListener<Object, Object> {
    final Object[] payload = new Object[24];
    final String[] name = new String[24];
    int fired, callbacks, done;
    boolean wrong, change;

    void note(StateEvent<Object> e) {
      note(e.getName(), e.getPayload());
    }

    void note(String n, Object p) {
      payload[fired] = p;
      name[fired] = n;
      fired++;
    }

    void see(StateEvent<Object> e, int last) {
      callbacks++;
      if (done >= fired || e.getPayload() != payload[done] || !e.getName().equals(name[done])) {
        wrong = true;
      }
      if (callbacks == last) {
        callbacks = 0;
        done++;
        if (change) {
          e.setPayload("changed by the last callback");
        }
      }
    }

    @Override
    public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
      see(e, 4);
    }

    @Override
    public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
      see(e, 4);
    }
  }

  static GenericStateMachine<Object, Object> observed(Seen seen, Config<Object, Object> c, boolean drop) {
    c.withUnmappedEventHandler((e, sm) -> seen.see(e, 1));
    GenericStateMachine<Object, Object> m = drop ? Mk.dropMachine(c) : Mk.machine(c);
    NamedState<Object, Object> a = Mk.st("A");
    NamedState<Object, Object> b = Mk.st("B");
    m.initialSate(a).receives(Mk.ev("e")).itTransitionsTo(b);
    m.when(b).receives(Mk.ev("e")).itTransitionsTo(a);
    a.appendExitActions((e, sm) -> seen.see(e, 4));
    b.appendExitActions((e, sm) -> seen.see(e, 4));
    a.appendEntryActions((e, sm) -> seen.see(e, 4));
    b.appendEntryActions((e, sm) -> seen.see(e, 4));
    m.startInState(a);
    m.setStateMachineListener(seen);
    return m;
  }

  static void sequential(int len, boolean change) {
    Steps steps = new Steps();
    Flow flow = new Flow();
    Seen seen = new Seen();
    GenericStateMachine<Object, Object> m = observed(seen, Mk.cfg().withExecutor(steps).withUnexpectedFlowListener(flow), false);
    seen.change = change;
    Object[] values = {null, new Object(), "text"};
    NamedStateEvent<Object> e = Mk.ev("e");
    NamedStateEvent<Object> u = Mk.ev("u");
    Object[] set = new Object[2]; // what the caller last gave each instance
    int waitingMax = 0;
    for (int i = 0; i < len; i++) {
      int op = Sym.pick("op" + i, 3);
      int w = Sym.bool("unmapped" + i) ? 1 : 0;
      NamedStateEvent<Object> x = w == 1 ? u : e;
      if (op == 0) {
        set[w] = values[change ? 1 + Sym.pick("value" + i, 2) : Sym.pick("value" + i, 3)];
        x.setPayload(set[w]);
      } else if (op == 1) {
        seen.note(x.getName(), set[w]);
        m.fire(x);
      } else {
        steps.run(len);
      }
      waitingMax = Math.max(waitingMax, seen.fired - seen.done);
    }
    steps.run(len);
    Sym.check("every callback sees the payload the event was fired with", !seen.wrong);
    Sym.check("firing does not change the caller's instance", change || e.getPayload() == set[0] && u.getPayload() == set[1]);
    Sym.check("every event is processed", seen.done == seen.fired && seen.callbacks == 0 && flow.total() == 0);
    Sym.cover("several fires of an instance waiting with different payloads", waitingMax > 1 && seen.fired > 1
        && seen.payload[0] != seen.payload[1] && seen.name[0].equals(seen.name[1]));
  }

  @Check(bounds = "every sequence of 5 steps among setting the payload (or null) of one of two event instances, firing one and letting the queue drain; mapped and unmapped events", covers = "several fires of an instance waiting with different payloads")
  public static void reuse() {
    sequential(5, false);
  }

  @Check(bounds = "the same, the last callback of an event sets another payload on the event it was given", covers = "several fires of an instance waiting with different payloads")
  public static void changedByCallback() {
    sequential(5, true);
  }

  @Check(bounds = "every sequence of 7 such steps", covers = "several fires of an instance waiting with different payloads", quick = false)
  public static void longReuse() {
    sequential(7, false);
  }

  @Check(bounds = "drop-duplicate strategy: an event fired with a payload or none, changed, fired again or not, changed again", covers = "changed while waiting")
  public static void dropDuplicate() {
    Steps steps = new Steps();
    Flow flow = new Flow();
    Seen seen = new Seen();
    GenericStateMachine<Object, Object> m = observed(seen, Mk.cfg().withExecutor(steps).withUnexpectedFlowListener(flow), true);
    Object[] values = {null, new Object(), "text"};
    NamedStateEvent<Object> e = Mk.ev(Sym.bool("mapped") ? "e" : "u");
    int v1 = Sym.pick("v1", 3);
    int v2 = Sym.pick("v2", 3);
    e.setPayload(values[v1]);
    seen.note(e);
    m.fire(e);
    e.setPayload(values[v2]);
    if (Sym.bool("again")) {
      m.fire(e); // dropped
    }
    e.setPayload(values[Sym.pick("v3", 3)]);
    steps.run(4);
    Sym.check("every callback sees the payload the event was fired with", !seen.wrong);
    Sym.check("the event is processed", seen.done == 1 && flow.total() == 0);
    Sym.cover("changed while waiting", v1 == 0 && v2 == 1);
  }

  @Check(bounds = "an exception in processing, or a refusal, is reported with the payload the event was fired with", covers = "reported")
  public static void reported() {
    Steps steps = new Steps();
    Flow flow = new Flow();
    NamedState<Object, Object> a = Mk.st("A");
    GenericStateMachine<Object, Object> m = Mk.machine(Mk.cfg().withExecutor(steps).withUnexpectedFlowListener(flow)
        .withMaxQueueSize(1));
    m.initialSate(a).receives(Mk.ev("e")).itTransitionsTo(a);
    m.startInState(a);
    a.appendEntryActions((e, sm) -> {
      throw new IllegalArgumentException();
    });
    Object[] values = {null, new Object(), "text"};
    NamedStateEvent<Object> e = Mk.ev("e");
    Object p = values[Sym.pick("v1", 3)];
    e.setPayload(p);
    m.fire(e);
    Object q = values[Sym.pick("v2", 3)];
    e.setPayload(q);
    m.fire(e);
    Sym.check("a refused event is reported with its payload", flow.errors == 1 && flow.event.getPayload() == q);
    e.setPayload(values[Sym.pick("v3", 3)]);
    steps.run(3);
    Sym.check("a failing event is reported with its payload", flow.errors == 2 && flow.event.getPayload() == p
        && flow.event.getName().equals("e"));
    Sym.cover("reported", p == null && q != null);
  }

  static void race(boolean drop, boolean withNull) {
    Seen seen = new Seen();
    Flow flow = new Flow();
    Object[] payload = {withNull ? null : "p0", "p1", "p2"};
    GenericStateMachine<Object, Object> m = observed(seen, Mk.cfg().withUnexpectedFlowListener(flow), drop);
    NamedStateEvent<Object> e = Mk.ev("e", payload[0]);
    NamedStateEvent<Object> u = Mk.ev("u");
    seen.note(e);
    m.fire(e);
    e.setPayload(payload[1]);
    seen.note(drop ? u : e);
    m.fire(drop ? u : e);
    e.setPayload(payload[2]);
    u.setPayload(payload[2]);
    Sched.awaitQuiescence();
    Sym.check("every callback sees the payload the event was fired with", !seen.wrong);
    Sym.check("every event is processed", seen.done == 2 && seen.callbacks == 0 && flow.total() == 0);
  }

  @Check(bounds = "an instance changed and fired again while the default executor works; every interleaving")
  public static void changeRace() {
    race(false, Sym.split("null", 2) == 1);
  }

  @Check(bounds = "the same with the drop-duplicate strategy and two instances")
  public static void changeRaceDrop() {
    race(true, Sym.split("null", 2) == 1);
  }

  @Check(bounds = "two threads each changing their own instance right after firing it, one of them twice; every interleaving", quick = false)
  public static void twoThreads() {
    Flow flow = new Flow();
    int[] count = new int[1];
    boolean[] wrong = new boolean[1];
    Config<Object, Object> c = Mk.cfg().withUnexpectedFlowListener(flow).withUnmappedEventHandler((e, sm) -> {
      count[0]++;
      // instance a is fired with a0 and a1, instance b without a payload
      wrong[0] |= e.getName().equals("b") ? e.getPayload() != null : e.getPayload() == null || e.getPayload().equals("late");
    });
    GenericStateMachine<Object, Object> m = Mk.machine(c);
    NamedState<Object, Object> a = Mk.st("A");
    m.initialSate(a).receives(Mk.ev("z")).itEnds();
    m.startInState(a);
    Sched.spawn(() -> {
      NamedStateEvent<Object> e = Mk.ev("b");
      m.fire(e);
      e.setPayload("late");
    });
    NamedStateEvent<Object> e = Mk.ev("a", "a0");
    m.fire(e);
    e.setPayload("a1");
    m.fire(e);
    e.setPayload("late");
    Sched.awaitQuiescence();
    Sym.check("every callback sees the payload the event was fired with", !wrong[0]);
    Sym.check("every event is processed", count[0] == 3 && flow.total() == 0);
  }

  @Check(bounds = "two threads fire one event each with a payload after zero to two events have been processed; every interleaving of the two calls", covers = "two before")
  public static void twoFirers() {
    Steps steps = new Steps();
    Flow flow = new Flow();
    Object[] got = new Object[2];
    int[] count = new int[2];
    Config<Object, Object> c = Mk.cfg().withExecutor(steps).withUnexpectedFlowListener(flow).withUnmappedEventHandler((e, sm) -> {
      int k = e.getName().equals("a") ? 0 : 1;
      if (!e.getName().equals("before")) {
        count[k]++;
        got[k] = e.getPayload();
      }
    });
    GenericStateMachine<Object, Object> m = Mk.machine(c);
    NamedState<Object, Object> a = Mk.st("A");
    m.initialSate(a).receives(Mk.ev("z")).itEnds();
    m.startInState(a);
    int before = Sym.split("before", 3);
    for (int i = 0; i < before; i++) {
      m.fire(Mk.ev("before", "old"));
    }
    steps.run(2);
    for (int i = 0; i < 2; i++) {
      String name = i == 0 ? "a" : "b";
      Sched.spawn(() -> m.fire(Mk.ev(name, "payload of " + name)));
    }
    Sched.awaitQuiescence();
    steps.run(3);
    Sym.check("every event is processed", count[0] == 1 && count[1] == 1 && flow.total() == 0);
    Sym.check("every callback sees the payload the event was fired with", "payload of a".equals(got[0])
        && "payload of b".equals(got[1]));
    Sym.cover("two before", before == 2);
  }

  /** An event class of the application's own. */
  static final class Own implements StateEvent<Object> {
    Object payload;

    @Override
    public String getName() {
      return "own";
    }

    @Override
    public Object getPayload() {
      return payload;
    }

    @Override
    public void setPayload(Object p) {
      payload = p;
    }
  }

  static boolean own(Object p, Object late) {
    Steps steps = new Steps();
    Flow flow = new Flow();
    Object[] saw = {"nothing"};
    GenericStateMachine<Object, Object> m = Mk.machine(Mk.cfg().withExecutor(steps).withUnexpectedFlowListener(flow)
        .withUnmappedEventHandler((e, sm) -> saw[0] = e.getPayload()));
    NamedState<Object, Object> a = Mk.st("A");
    m.initialSate(a).receives(Mk.ev("z")).itEnds();
    m.startInState(a);
    Own e = new Own();
    e.setPayload(p);
    m.fire(e);
    e.setPayload(late);
    steps.run(2);
    return saw[0] == p;
  }

  @Check(bounds = "an event of a user-defined class fired with a payload and changed, or not, while it waits")
  public static void ownEventWithPayload() {
    Object[] values = {null, new Object(), "text"};
    Sym.check("every callback sees the payload the event was fired with", own(values[Sym.range("p", 1, 2)],
        values[Sym.pick("late", 3)]));
  }

  @Check(bounds = "an event of a user-defined class fired without a payload and given one, or not, while it waits")
  public static void ownEventClass() {
    Sym.check("a user-defined event fired without a payload is processed without one", own(null,
        Sym.bool("later") ? "late" : null));
  }
}
