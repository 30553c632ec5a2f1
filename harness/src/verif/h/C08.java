package verif.h;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachineListener;
import verif.rt.Check;
import verif.rt.Sched;
import verif.rt.Sym;

/** C08: a machine starts exactly once. */
public class C08 {
  static final class Count implements StateMachineListener<Object, Object> {
    int begins, ends, entries;

    @Override
    public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
      begins++;
    }

    @Override
    public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
      ends++;
    }
  }

  static GenericStateMachine<Object, Object> machine(Count c, NamedState<Object, Object>[] ss) {
    return machine(c, ss, Mk.machine(Mk.cfg().withUnmappedEventHandler(new Flow()).withUnexpectedFlowListener(new Flow())));
  }

  static GenericStateMachine<Object, Object> machine(Count c, NamedState<Object, Object>[] ss,
      GenericStateMachine<Object, Object> m) {
    for (NamedState<Object, Object> s : ss) {
      s.appendEntryActions((e, sm) -> c.entries++);
      s.appendExitActions((e, sm) -> c.entries += 100);
    }
    m.initialSate(ss[0]).receives(Mk.ev("e")).itTransitionsTo(ss[1]);
    m.when(ss[1]).receives(Mk.ev("e")).itTransitionsTo(ss[0]);
    m.when(ss[1]).receives(Mk.ev("z")).itEnds();
    m.setStateMachineListener(c);
    return m;
  }

  @SuppressWarnings("unchecked")
  static NamedState<Object, Object>[] states() {
    return new NamedState[] {Mk.st("A"), Mk.st("B"), Mk.st("X")};
  }

  /** 0 start, 1 startInState(A), 2 startInState(B), 3 startInState of a state that is not configured; false if refused. */
  static boolean call(GenericStateMachine<Object, Object> m, NamedState<Object, Object>[] ss, int op) {
    try {
      if (op == 0) {
        m.start();
      } else {
        m.startInState(ss[op - 1]);
      }
      return true;
    } catch (IllegalStateException e) {
      return false;
    }
  }

  static void sequential(int len) {
    Count c = new Count();
    NamedState<Object, Object>[] ss = states();
    Steps steps = new Steps();
    Flow flow = new Flow();
    GenericStateMachine<Object, Object> m = machine(c, ss, Mk.machine(steps, flow));
    boolean started = false;
    boolean stopped = false;
    boolean stoppedFirst = false;
    int entries = 0;
    int fired = 0;
    int stays = 0;
    String at = null;
    Sym.check("not started at first", !m.isStarted());
    for (int i = 0; i < len; i++) {
      int op = Sym.pick("op" + i, 6);
      if (op == 4) {
        // an explicit stop: what it does is C07; it never starts the machine, nor does it keep it from starting
        m.stop();
        stopped |= started;
        stoppedFirst |= !started;
      } else if (op == 5) {
        // an event that is not mapped
        m.fire(Mk.ev("none"));
        steps.run(1);
        fired += started ? 0 : 1;
        stays += started && !stopped ? 1 : 0;
      } else {
        // states are the same when their names are
        boolean ok = call(m, op == 2 ? states() : ss, op);
        Sym.check("exactly one start takes effect", ok == (!started && op != 3));
        if (ok) {
          started = true;
          at = op == 2 ? "B" : "A";
          entries += op == 0 ? 1 : 0;
        }
      }
      Sym.check("started exactly when a call took effect", m.isStarted() == started);
      Sym.check("ended only when stopped", !started || m.isEnded() == stopped);
      Sym.check("initial entry runs exactly once, and only for start", c.entries == entries && c.begins == entries && c.ends == entries);
      Sym.check("state", !started || m.getCurrentState().getName().equals(stopped ? "_END_" : at));
      Sym.check("no state before the start", started || stoppedFirst || m.getCurrentState() == null);
      Sym.check("events are processed exactly after the start", flow.before == fired && flow.unmapped == stays && flow.errors == 0);
    }
    Sym.cover("refused first, then started in a state", started && at.equals("B"));
    Sym.cover("never started", !started);
    Sym.cover("stopped before the start", started && stoppedFirst && !stopped);
  }

  @Check(bounds = "every history of 4 calls among start, startInState of two configured states and of one that is not, stop and fire", covers = {
      "refused first, then started in a state", "never started", "stopped before the start"})
  public static void history() {
    sequential(4);
  }

  @Check(bounds = "histories of 8 calls", covers = {"refused first, then started in a state", "never started", "stopped before the start"}, quick = false)
  public static void longer() {
    sequential(8);
  }

  @Check(bounds = "a second start() or startInState() at any time in the life of the machine: during the initial entry, after an event, after the end", covers = {
      "during the initial entry", "after the end"})
  public static void again() {
    Count c = new Count();
    NamedState<Object, Object>[] ss = states();
    GenericStateMachine<Object, Object> m = machine(c, ss);
    boolean[] refused = new boolean[1];
    int when = Sym.pick("when", 3);
    int op = Sym.pick("op", 3);
    if (when == 0) {
      ss[0].appendEntryActions((e, sm) -> {
        if (!refused[0]) {
          refused[0] = !call(m, ss, op);
        }
      });
    }
    m.start();
    m.fire(Mk.ev("e"));
    Sched.awaitQuiescence();
    Sym.check("running", m.getCurrentState().getName().equals("B") && c.begins == 2);
    if (when == 1) {
      refused[0] = !call(m, ss, op);
      Sym.check("a refused start has no effect", m.getCurrentState().getName().equals("B") && !m.isEnded());
    }
    m.fire(Mk.ev("z"));
    Sched.awaitQuiescence();
    if (when == 2) {
      refused[0] = !call(m, ss, op);
    }
    Sym.check("a second start is refused", refused[0]);
    Sym.check("a refused start has no effect", m.isEnded() && m.getCurrentState().equals(m.getEndState()) && c.begins == 3);
    Sym.cover("during the initial entry", when == 0);
    Sym.cover("after the end", when == 2);
  }

  static void race(int threads) {
    Count c = new Count();
    NamedState<Object, Object>[] ss = states();
    GenericStateMachine<Object, Object> m = machine(c, ss);
    int[] ops = new int[3];
    boolean[] ok = new boolean[3];
    for (int i = 0; i < threads; i++) {
      ops[i] = Sym.pick("op" + i, 3);
      int k = i;
      Sched.spawn(() -> ok[k] = call(m, ss, ops[k]));
    }
    boolean seen = m.isStarted();
    State<Object, Object> s = m.getCurrentState();
    if (seen) {
      Sym.check("a started machine has a current state", s != null);
      m.fire(Mk.ev("u"));
    }
    Sched.awaitQuiescence();
    int n = 0;
    int w = 0;
    for (int i = 0; i < threads; i++) {
      if (ok[i]) {
        n++;
        w = ops[i];
      }
    }
    Sym.check("exactly one concurrent start takes effect", n == 1);
    Sym.check("in the state of the one that took effect", m.isStarted() && !m.isEnded() && m.getCurrentState().getName().equals(w == 2 ? "B" : "A"));
    Sym.check("initial entry runs exactly once, and only for start", c.entries == (w == 0 ? 1 : 0) && c.begins == c.entries && c.ends == c.entries);
    Sym.cover("seen started", seen);
    Sym.cover("second thread wins", ok[1]);
  }

  @Check(bounds = "two threads calling start or startInState (any of two states), a third watching and firing; every interleaving", covers = {
      "seen started", "second thread wins"})
  public static void race2() {
    race(2);
  }

  @Check(bounds = "three threads calling start or startInState", covers = {"seen started", "second thread wins"}, quick = false)
  public static void race3() {
    race(3);
  }
}
