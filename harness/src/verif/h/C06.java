package verif.h;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.UnexpectedFlowListener;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import verif.rt.Check;
import verif.rt.Sched;
import verif.rt.Sym;

/** C06: every fired event has exactly one outcome. */
public class C06 {
  /** e: A to A with an entry action, z: ends, anything else unmapped. */
  static GenericStateMachine<Object, Object> machine(GenericStateMachine<Object, Object> m, NamedState<Object, Object> a) {
    m.initialSate(a).receives(Mk.ev("e")).itTransitionsTo(a);
    m.when(a).receives(Mk.ev("z")).itEnds();
    return m;
  }

  static void sequential(boolean drop, int len) {
    Steps steps = new Steps();
    Flow flow = new Flow();
    GenericStateMachine<Object, Object> m = drop
        ? Mk.dropMachine(Mk.cfg().withExecutor(steps).withUnexpectedFlowListener(flow).withUnmappedEventHandler(flow))
        : Mk.machine(steps, flow);
    NamedState<Object, Object> a = Mk.st("A");
    int[] processed = new int[1];
    a.appendEntryActions((e, sm) -> processed[0] += e.getName().equals("e") ? 1 : 0);
    machine(m, a);
    boolean started = false;
    boolean ended = false;
    boolean lateStart = false;
    int before = 0;
    int after = 0;
    int unmapped = 0;
    int done = 0;
    int[] queue = new int[len + 1];
    int tail = 0;
    for (int i = 0; i < len; i++) {
      int op = Sym.pick("op" + i, 5);
      if (op == 0) {
        int k = Sym.pick("event" + i, 3);
        StateEvent<Object> e = Mk.ev(k == 0 ? "e" : k == 1 ? "u" : "z", Sym.bool("payload" + i) ? steps : null);
        m.fire(e);
        if (!started) {
          before++;
          Sym.check("reported event and machine", flow.event == e && flow.machine == m);
        } else if (ended) {
          after++;
          Sym.check("reported event and machine", flow.event == e && flow.machine == m);
        } else {
          boolean dup = false;
          for (int j = 0; j < i; j++) {
            dup |= j < tail && queue[j] == k;
          }
          if (!drop || !dup) {
            queue[tail++] = k;
          }
        }
      } else if (op == 1 || op == 2) {
        boolean refused = false;
        try {
          if (op == 1) {
            m.start();
          } else {
            m.startInState(a);
          }
        } catch (IllegalStateException x) {
          refused = true;
        }
        Sym.check("start works unless started", refused == started);
        lateStart |= !started && before > 0;
        if (!started) {
          ended = false;
        }
        started = true;
      } else if (op == 3) {
        m.stop();
        ended = true;
      } else {
        steps.run(i + 1);
        for (int j = 0; j < i; j++) {
          if (j < tail && !ended) {
            if (queue[j] == 0) {
              done++;
            } else if (queue[j] == 1) {
              unmapped++;
            } else {
              ended = true;
            }
          }
        }
        tail = 0;
      }
      Sym.check("before-start reports", flow.before == before);
      Sym.check("after-end reports", flow.after == after);
      Sym.check("processed exactly the accepted events", processed[0] == done && flow.unmapped == unmapped);
      Sym.check("no other report", flow.errors == 0);
      Sym.check("ended as expected", !started || m.isEnded() == ended);
    }
    Sym.cover("fired before start, started later", lateStart && done > 0);
    Sym.cover("after end", after > 0);
    Sym.cover("processed", done > 0);
  }

  @Check(bounds = "every history of 5 calls among fire (mapped, unmapped or ending event, payload or not), start, startInState, stop and let-the-executor-run", covers = {
      "fired before start, started later", "after end", "processed"})
  public static void history() {
    sequential(false, 5);
  }

  @Check(bounds = "the same with the drop-duplicate strategy, 5 calls", covers = {"fired before start, started later", "after end",
      "processed"})
  public static void historyDrop() {
    sequential(true, 5);
  }

  @Check(bounds = "histories of 9 calls", covers = {"fired before start, started later", "after end", "processed"}, quick = false)
  public static void longer() {
    sequential(false, 9);
  }

  /** Outcome of each of a few events, identified by payload. */
  static final class Outcomes implements UnexpectedFlowListener<Object, Object> {
    GenericStateMachine<Object, Object> m;
    final int[] count = new int[4];
    int before, after, done, startedAtFire, endedAtFire;
    boolean startReturned, stopReturned;

    void add(StateEvent<Object> e) {
      int i = ((C04.Tok) e.getPayload()).id;
      count[i]++;
      Sym.check("at most one outcome", count[i] == 1);
    }

    void fire(int i, String name) {
      if (startReturned) {
        startedAtFire |= 1 << i;
      }
      if (stopReturned) {
        endedAtFire |= 1 << i;
      }
      m.fire(Mk.ev(name, new C04.Tok(i)));
    }

    @Override
    public void onExceptionDuringEventProcessing(StateEvent<Object> e, StateMachine<Object, Object> sm, Thread t, Exception x) {
      Sym.check("no exception is reported", false);
    }

    @Override
    public void onEventAfterMachineEnd(StateEvent<Object> e, StateMachine<Object, Object> sm) {
      add(e);
      after++;
      Sym.check("reported after the end only when ended", m.isEnded());
    }

    @Override
    public void onEventBeforeMachineStart(StateEvent<Object> e, StateMachine<Object, Object> sm) {
      add(e);
      before++;
      Sym.check("reported before the start only when not started", (startedAtFire & 1 << ((C04.Tok) e.getPayload()).id) == 0);
    }

    void handled(StateEvent<Object> e) {
      if (e.getPayload() != null) {
        add(e);
        done++;
        Sym.check("not processed after the end", (endedAtFire & 1 << ((C04.Tok) e.getPayload()).id) == 0);
      }
    }
  }

  static GenericStateMachine<Object, Object> observed(Outcomes o) {
    return observed(o, Mk.st("A"));
  }

  static GenericStateMachine<Object, Object> observed(Outcomes o, NamedState<Object, Object> a) {
    GenericStateMachine<Object, Object> m = Mk.machine(Mk.cfg().withUnexpectedFlowListener(o)
        .withUnmappedEventHandler((e, sm) -> o.handled(e)));
    o.m = m;
    a.appendEntryActions((e, sm) -> o.handled(e));
    a.appendExitActions((e, sm) -> {
      if (e.getName().equals("z")) {
        o.handled(e);
      }
    });
    return machine(m, a);
  }

  @Check(bounds = "start() or startInState() against another thread firing two events; every interleaving", covers = {
      "both before", "one before, one processed", "both processed"})
  public static void startRace() {
    Outcomes o = new Outcomes();
    NamedState<Object, Object> a = Mk.st("A");
    GenericStateMachine<Object, Object> m = observed(o, a);
    boolean in = Sym.bool("startInState");
    boolean e = Sym.bool("mapped");
    Sched.spawn(() -> {
      o.fire(0, "e");
      o.fire(1, e ? "e" : "u");
    });
    if (in) {
      m.startInState(a);
    } else {
      m.start();
    }
    o.startReturned = true;
    Sched.awaitQuiescence();
    Sym.check("one outcome each", o.before + o.done == 2 && o.count[0] == 1 && o.count[1] == 1);
    Sym.check("no after-end report", o.after == 0);
    Sym.check("machine runs", m.isStarted() && !m.isEnded());
    Sym.cover("both before", o.before == 2);
    Sym.cover("one before, one processed", o.before == 1 && o.count[1] == 1);
    Sym.cover("both processed", o.before == 0 && o.count[1] == 1);
  }

  @Check(bounds = "two events fired while another thread stops the machine; every interleaving", covers = {"rejected", "processed",
      "discarded"})
  public static void stopRace() {
    Outcomes o = new Outcomes();
    GenericStateMachine<Object, Object> m = observed(o);
    m.start();
    o.startReturned = true;
    Sched.spawn(() -> {
      o.fire(0, "u");
      o.fire(1, Sym.bool("mapped") ? "e" : "u");
    });
    m.stop();
    o.stopReturned = true;
    Sched.awaitQuiescence();
    Sym.check("ended", m.isEnded());
    Sym.check("no before-start report", o.before == 0);
    Sym.cover("rejected", o.after == 2);
    Sym.cover("processed", o.done == 2);
    Sym.cover("discarded", o.done + o.after < 2);
  }

  @Check(bounds = "an ending event and two more from another thread; every interleaving", covers = {"rejected", "processed", "discarded"})
  public static void endRace() {
    Outcomes o = new Outcomes();
    GenericStateMachine<Object, Object> m = observed(o);
    m.start();
    o.startReturned = true;
    boolean first = Sym.bool("unmapped");
    Sched.spawn(() -> {
      o.fire(0, first ? "u" : "e");
      o.fire(1, "e");
    });
    o.fire(2, "z");
    Sched.awaitQuiescence();
    Sym.check("ended", m.isEnded() && o.count[2] == 1);
    Sym.check("no before-start report", o.before == 0);
    Sym.cover("rejected", o.after == 2);
    Sym.cover("processed", o.done == 3);
    Sym.cover("discarded", o.done + o.after < 3);
  }
}
