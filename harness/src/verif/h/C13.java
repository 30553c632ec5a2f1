package verif.h;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.UnexpectedFlowListener;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory.Config;
import verif.rt.Check;
import verif.rt.Sched;
import verif.rt.Sym;

/** C13: exceptions are contained and reported once. */
public class C13 {
  static final class Boom extends Error {
  }

  static final class Checked extends Exception {
    Checked() {
    }

    Checked(Throwable cause) {
      super(cause);
    }
  }

  static final int BEGIN = 1, EXIT1 = 2, EXIT2 = 3, ENTRY1 = 4, ENTRY2 = 5, ENDED = 6, UNMAPPED = 7;

  /** The callbacks of each event, by the number in its payload; some fail. */
  static class Plan implements StateMachineListener<Object, Object>, UnexpectedFlowListener<Object, Object> {
    GenericStateMachine<Object, Object> m;
    final int n;
    final int[] failAt, kind; // kind: 0 runtime, 1 checked, 2 error, from 3 on one of the others, which may be thrown again
    final Exception[] others = others();

    private static Exception[] others() {
      Exception[] some = C14.others();
      Exception[] all = java.util.Arrays.copyOf(some, some.length + 5);
      all[some.length] = new NullPointerException();
      all[some.length + 1] = new InterruptedException();
      all[some.length + 2] = new java.io.IOException();
      all[some.length + 3] = new IllegalStateException();
      all[some.length + 4] = new IllegalStateException(new NullPointerException());
      return all;
    }

    final int[] ran, reports, last;
    final Throwable[] thrown;
    final String[] stateAt;
    final Thread[] by;
    int order = -1;
    boolean wrongReport, wrongOrder, otherReport;

    Plan(int n) {
      this.n = n;
      failAt = new int[n];
      kind = new int[n];
      ran = new int[n];
      reports = new int[n];
      last = new int[n];
      thrown = new Throwable[n];
      stateAt = new String[n];
      by = new Thread[n];
    }

    void call(int phase, StateEvent<Object> e) {
      Object p = e.getPayload();
      if (p == null) {
        return; // the initial entry
      }
      int i = (Integer) p;
      if (ran[i] == 0) {
        stateAt[i] = m.getCurrentState().getName();
        by[i] = Thread.currentThread();
      }
      wrongOrder |= phase <= last[i];
      last[i] = phase;
      ran[i] |= 1 << phase;
      order(i);
      if (failAt[i] == phase) {
        fail(i);
      }
    }

    void order(int i) {
      wrongOrder |= i < order;
      order = i;
    }

    private void fail(int i) {
      // one in two has a cause, which is not what must be reported
      Throwable t = kind[i] == 0 ? i % 2 == 0 ? new IllegalArgumentException(new IllegalStateException()) : new IllegalArgumentException()
          : kind[i] == 1 ? i % 2 == 0 ? new Checked(new IllegalStateException("cause")) : new Checked() : kind[i] == 2 ? new Boom()
              : others[kind[i] - 3];
      thrown[i] = t;
      C13.<RuntimeException>sneak(t);
    }

    @Override
    public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
      call(BEGIN, e);
    }

    @Override
    public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
      call(ENDED, e);
    }

    @Override
    public void onExceptionDuringEventProcessing(StateEvent<Object> e, StateMachine<Object, Object> sm, Thread t, Exception x) {
      int i = (Integer) e.getPayload();
      reports[i]++;
      Sym.check("an exception is reported exactly once, and only an exception", reports[i] == 1);
      wrongReport |= sm != m || x != thrown[i] || t != by[i] || t != Thread.currentThread();
    }

    @Override
    public void onEventAfterMachineEnd(StateEvent<Object> e, StateMachine<Object, Object> sm) {
      otherReport = true;
    }

    @Override
    public void onEventBeforeMachineStart(StateEvent<Object> e, StateMachine<Object, Object> sm) {
      otherReport = true;
    }

    boolean failed(int i) {
      return thrown[i] != null;
    }

    void check(int i, String name, String next) {
      int all = "e".equals(name) ? 0x7e : "n".equals(name) ? 1 << BEGIN | 1 << ENDED : "z".equals(name)
          ? 1 << BEGIN | 1 << EXIT1 | 1 << EXIT2 | 1 << ENDED : 1 << UNMAPPED;
      int expected = (all & 1 << failAt[i]) != 0 ? all & (1 << failAt[i] + 1) - 1 : all;
      Sym.check("every event is processed up to its failure and no further", ran[i] == expected);
      Sym.check("an exception is reported exactly once, and only an exception",
          failed(i) && kind[i] == 2 || reports[i] == (failed(i) ? 1 : 0));
      String from = stateAt[i];
      String to = "e".equals(name) ? ("A".equals(from) ? "B" : "A") : "z".equals(name) ? "_END_" : from;
      Sym.check("left in the state it was in or in the target", next.equals(to) || failed(i) && next.equals(from));
    }

    void verify() {
      Sym.check("reported with its event, machine, exception and thread", !wrongReport && !otherReport);
      Sym.check("processed once and in order", !wrongOrder);
    }
  }

  @SuppressWarnings("unchecked")
  static <X extends Throwable> void sneak(Throwable t) throws X {
    throw (X) t;
  }

  static GenericStateMachine<Object, Object> machine(Plan p, Config<Object, Object> c, boolean drop) {
    c.withUnexpectedFlowListener(p).withUnmappedEventHandler((e, sm) -> p.call(UNMAPPED, e));
    GenericStateMachine<Object, Object> m = drop ? Mk.dropMachine(c) : Mk.machine(c);
    p.m = m;
    NamedState<Object, Object> a = Mk.st("A");
    NamedState<Object, Object> b = Mk.st("B");
    NamedState<Object, Object>[] ss = new NamedState[] {a, b};
    for (NamedState<Object, Object> s : ss) {
      s.appendExitActions((e, sm) -> p.call(EXIT1, e), (e, sm) -> p.call(EXIT2, e));
      s.appendEntryActions((e, sm) -> p.call(ENTRY1, e), (e, sm) -> p.call(ENTRY2, e));
    }
    m.initialSate(a).receives(Mk.ev("e")).itTransitionsTo(b);
    m.when(b).receives(Mk.ev("e")).itTransitionsTo(a);
    for (NamedState<Object, Object> s : ss) {
      m.when(s).receives(Mk.ev("n")).itDoesNotTransition();
      m.when(s).receives(Mk.ev("z")).itEnds();
    }
    m.setStateMachineListener(p);
    return m;
  }

  static void sequential(int n, boolean burst, boolean drop) {
    Steps steps = new Steps();
    Plan p = new Plan(n);
    GenericStateMachine<Object, Object> m = machine(p, Mk.cfg().withExecutor(steps), drop);
    m.start();
    String[] names = {"e", "n", "u", "z"};
    String[] name = new String[n];
    String[] after = new String[n];
    for (int i = 0; i < n; i++) {
      name[i] = names[Sym.pick("event" + i, i == n - 1 ? 4 : 3)];
      p.failAt[i] = Sym.pick("failAt" + i, 8);
      p.kind[i] = Sym.pick("kind" + i, 3 + p.others.length);
      if (drop) {
        for (int j = 0; j < i; j++) {
          Sym.assume(!name[i].equals(name[j]));
        }
      }
    }
    for (int i = 0; i < n; i++) {
      m.fire(Mk.ev(name[i], i));
      if (!burst) {
        drain(steps);
        after[i] = m.getCurrentState().getName();
      }
    }
    for (int i = 0; i < n; i++) {
      if (burst) {
        drain(steps);
      }
    }
    for (int i = 0; i < n; i++) {
      p.check(i, name[i], !burst ? after[i] : i < n - 1 ? p.stateAt[i + 1] : m.getCurrentState().getName());
    }
    p.verify();
    Sym.check("ended exactly in the end state", m.isEnded() == "_END_".equals(m.getCurrentState().getName()));
    Sym.check("nothing waits in the end", m.getEventQueueSize() == 0);
    Sym.cover("first and last fail", p.failed(0) && p.failed(n - 1));
    Sym.cover("with the same exception", p.failed(0) && p.thrown[0] == p.thrown[n - 1]);
    Sym.cover("an exit action fails with a checked exception", p.failed(0) && p.failAt[0] == EXIT1 && p.kind[0] == 1);
    Sym.cover("an error", p.failed(0) && p.kind[0] == 2);
  }

  static void drain(Steps steps) {
    try {
      steps.run(4);
    } catch (Boom b) {
      // the worker of an executor is replaced
    }
  }

  @Check(bounds = "two events (transition, non-transition, unmapped, ending) one after the other, each failing at any callback with a runtime exception, a checked one, an error or one of 20 other exceptions, or not at all; the same exception may be thrown again", covers = {
      "first and last fail", "with the same exception", "an exit action fails with a checked exception", "an error"})
  public static void one() {
    sequential(2, false, false);
  }

  @Check(bounds = "the same, both events waiting before the first is processed", covers = {"first and last fail", "with the same exception",
      "an exit action fails with a checked exception", "an error"})
  public static void burst() {
    sequential(2, true, false);
  }

  @Check(bounds = "the same with the drop-duplicate strategy and different events", covers = {"first and last fail", "with the same exception",
      "an exit action fails with a checked exception", "an error"})
  public static void burstDrop() {
    sequential(2, true, true);
  }

  @Check(bounds = "four events one after the other", covers = {"first and last fail", "with the same exception",
      "an exit action fails with a checked exception", "an error"}, quick = false)
  public static void four() {
    sequential(4, false, false);
  }

  @Check(bounds = "three events, all waiting", covers = {"first and last fail", "with the same exception",
      "an exit action fails with a checked exception", "an error"}, quick = false)
  public static void burst3() {
    sequential(3, true, false);
  }

  static final int[] PHASES = {0, BEGIN, EXIT2, ENTRY1, ENDED};

  static void concurrent(boolean drop, int kinds, int... fires) {
    int n = 0;
    for (int f : fires) {
      n += f;
    }
    Plan p = new Plan(n) {
      @Override
      void order(int i) {
        // the order between threads is free
      }
    };
    GenericStateMachine<Object, Object> m = machine(p, Mk.cfg(), drop);
    m.start();
    String[] name = new String[n];
    p.failAt[0] = PHASES[Sym.split("failAt", 5)];
    p.kind[0] = Sym.split("kind", kinds);
    for (int i = 0; i < n; i++) {
      name[i] = i == 0 || i == n - 1 ? "e" : drop ? "n" : "u";
      if (i > 0 && !"e".equals(name[i])) {
        p.failAt[i] = drop ? ENDED : UNMAPPED;
      }
    }
    int b = 0;
    for (int f : fires) {
      int from = b;
      Sched.spawn(() -> {
        for (int i = from; i < from + f; i++) {
          m.fire(Mk.ev(name[i], i));
        }
      });
      b += f;
    }
    Sched.awaitQuiescence();
    for (int i = 0; i < n; i++) {
      if (!drop || i < n - 1 || p.ran[i] != 0) { // with drop-duplicate the last one may be dropped
        int[] x = p.ran;
        int all = "e".equals(name[i]) ? 0x7e : "n".equals(name[i]) ? 1 << BEGIN | 1 << ENDED : 1 << UNMAPPED;
        Sym.check("every event is processed up to its failure and no further", drop && i == 0 && x[0] == 0
            || x[i] == ((all & 1 << p.failAt[i]) != 0 ? all & (1 << p.failAt[i] + 1) - 1 : all));
      }
      Sym.check("an exception is reported exactly once, and only an exception",
          p.failed(i) && p.kind[i] == 2 || p.reports[i] == (p.failed(i) ? 1 : 0));
    }
    Sym.check("at least one of two equal events is processed", p.ran[0] != 0 || p.ran[n - 1] != 0);
    p.verify();
    Sym.check("nothing waits in the end", m.getEventQueueSize() == 0 && !m.isEnded());
    Sym.cover("the failing event is processed first", p.failed(0) && "A".equals(p.stateAt[0]));
  }

  @Check(bounds = "two threads firing one event each, one of them failing at begin, an exit action, an entry action, end or not at all, with each kind of throwable; default executor, every interleaving", covers = "the failing event is processed first")
  public static void race() {
    concurrent(false, 3, 1, 1);
  }

  @Check(bounds = "the same with three events, two of them failing", covers = "the failing event is processed first", quick = false)
  public static void race3() {
    concurrent(false, 3, 2, 1);
  }

  @Check(bounds = "the same with the drop-duplicate strategy", covers = "the failing event is processed first", quick = false)
  public static void raceDrop() {
    concurrent(true, 3, 2, 1);
  }
}
