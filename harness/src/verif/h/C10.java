package verif.h;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.UnexpectedFlowListener;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.strategy.EventMachinePair;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory.Config;
import java.util.AbstractQueue;
import java.util.Collections;
import java.util.Iterator;
import verif.rt.Check;
import verif.rt.Sched;
import verif.rt.Sym;

/** C10: a bounded queue never exceeds its bound, overflow is reported. */
public class C10 {
  /** A queue that claims to hold any number of elements and counts what is added. */
  static final class Sized extends AbstractQueue<EventMachinePair<Object, Object>> {
    int size, added;

    @Override
    public Iterator<EventMachinePair<Object, Object>> iterator() {
      return Collections.emptyIterator();
    }

    @Override
    public int size() {
      return size;
    }

    @Override
    public boolean isEmpty() {
      return size == 0;
    }

    @Override
    public boolean offer(EventMachinePair<Object, Object> p) {
      added++;
      size++;
      return true;
    }

    @Override
    public EventMachinePair<Object, Object> poll() {
      return null;
    }

    @Override
    public EventMachinePair<Object, Object> peek() {
      return null;
    }
  }

  static GenericStateMachine<Object, Object> configured(GenericStateMachine<Object, Object> m, NamedState<Object, Object> a) {
    m.initialSate(a).receives(Mk.ev("e")).itTransitionsTo(a);
    m.when(a).receives(Mk.ev("z")).itEnds();
    return m;
  }

  @Check(bounds = "every int maximum, every int queue length, one event with or without payload; both strategies", covers = {
      "refused at the largest maximum", "accepted at a negative maximum", "accepted one below the maximum"})
  public static void anySize() {
    Steps steps = new Steps();
    Flow flow = new Flow();
    Sized q = new Sized();
    int max = Sym.integer("max");
    int n = Sym.integer("waiting");
    Sym.assume(n >= 0 && n < Integer.MAX_VALUE);
    q.size = n;
    Config<Object, Object> c = Mk.cfg().withExecutor(steps).withUnexpectedFlowListener(flow)
        .withUnmappedEventHandler(flow).withMaxQueueSize(max).withEventQueue(q);
    boolean drop = Sym.bool("drop");
    GenericStateMachine<Object, Object> m = configured(drop ? Mk.dropMachine(c) : Mk.machine(c), Mk.st("A"));
    m.start();
    NamedStateEvent<Object> e = Mk.ev("e");
    Object p = Sym.bool("payload") ? new Object() : null;
    if (p != null) {
      e.setPayload(p);
    }
    m.fire(e);
    boolean full = max > 0 && n >= max;
    Sym.check("refused exactly when full", q.added == (full ? 0 : 1));
    Sym.check("the queue grows by the accepted event", m.getEventQueueSize() == (full ? n : n + 1));
    Sym.check("a refusal is reported exactly once, an acceptance never", flow.errors == (full ? 1 : 0) && flow.total() == flow.errors);
    if (full) {
      Sym.check("reported with its event, machine and thread", e.equals(flow.event) && flow.event.getPayload() == p
          && flow.machine == m && flow.thread == Thread.currentThread());
      Sym.check("reported as an illegal state", flow.error instanceof IllegalStateException);
    }
    Sym.cover("refused at the largest maximum", full && max == Integer.MAX_VALUE - 1);
    Sym.cover("accepted at a negative maximum", max == Integer.MIN_VALUE && !full);
    Sym.cover("accepted one below the maximum", max > 1 && n == max - 1);
  }

  static void sequential(int rounds, int per, boolean drop) {
    Steps steps = new Steps();
    Flow flow = new Flow();
    int max = Sym.split("max", 5) - 1;
    Config<Object, Object> c = Mk.cfg().withExecutor(steps).withUnexpectedFlowListener(flow)
        .withUnmappedEventHandler(flow).withMaxQueueSize(max);
    NamedState<Object, Object> a = Mk.st("A");
    GenericStateMachine<Object, Object> m = configured(drop ? Mk.dropMachine(c) : Mk.machine(c), a);
    int[] done = new int[2];
    boolean[] refire = new boolean[1];
    int[] nested = new int[2];
    a.appendEntryActions((e, sm) -> {
      if ("e".equals(e.getName())) {
        done[0]++;
        if (refire[0]) {
          refire[0] = false;
          // the events behind this one still wait
          for (int i = 0; i < 2; i++) {
            boolean full = max > 0 && nested[0] >= max;
            int errors = flow.errors;
            m.fire(Mk.ev("x" + i));
            Sym.check("refused exactly when full", flow.errors == errors + (full ? 1 : 0));
            if (!full) {
              nested[0]++;
              nested[1]++;
            }
          }
          int s = m.getEventQueueSize();
          Sym.check("the size counts the accepted events", s == nested[0] || s == nested[0] + 1);
        }
      }
    });
    m.start();
    for (int r = 0; r < rounds; r++) {
      int k = rounds > 2 ? Sym.split("burst" + r, per + 1) : Sym.pick("burst" + r, per + 1);
      int waiting = 0;
      int errors = flow.errors;
      for (int i = 0; i < per; i++) {
        if (i < k) {
          boolean full = max > 0 && waiting >= max;
          m.fire(Mk.ev(i == 0 ? "e" : "y" + i));
          if (full) {
            errors++;
          } else {
            waiting++;
          }
          Sym.check("refused exactly when full", flow.errors == errors);
          Sym.check("the size counts the accepted events", m.getEventQueueSize() == waiting);
        }
      }
      int unmapped = flow.unmapped;
      done[0] = 0;
      nested[0] = waiting - 1;
      nested[1] = 0;
      refire[0] = Sym.bool("refire" + r);
      steps.run(2 * per + 2);
      Sym.check("exactly the accepted events are processed", done[0] == (k > 0 ? 1 : 0)
          && flow.unmapped == unmapped + (k > 0 ? waiting - 1 : 0) + nested[1]);
      Sym.check("nothing waits in the end", m.getEventQueueSize() == 0);
      Sym.cover("overflow from inside an action", max == 2 && nested[1] == 1);
    }
    Sym.check("the machine goes on", !m.isEnded() && flow.before == 0 && flow.after == 0);
  }

  @Check(bounds = "every maximum from -1 to 3; two bursts of up to 4 events, an action firing two more; default strategy", covers = "overflow from inside an action")
  public static void bursts() {
    sequential(2, 4, false);
  }

  @Check(bounds = "every maximum from -1 to 3; one burst of up to 4 different events, an action firing two more; drop-duplicate strategy", covers = "overflow from inside an action")
  public static void burstsDrop() {
    sequential(1, 4, true);
  }

  @Check(bounds = "every maximum from -1 to 3; three bursts of up to 4 events", covers = "overflow from inside an action", quick = false)
  public static void manyBursts() {
    sequential(3, 4, false);
  }

  /** Follows a handful of events fired concurrently. */
  static final class Watch implements UnexpectedFlowListener<Object, Object> {
    final int max, n;
    GenericStateMachine<Object, Object> m;
    final Thread[] by;
    int began, completed, seen, refusals, processed;
    boolean overfull;
    final int[] completedBefore;

    Watch(int max, int n) {
      this.max = max;
      this.n = n;
      by = new Thread[n];
      completedBefore = new int[n];
    }

    void fire(int i) {
      by[i] = Thread.currentThread();
      completedBefore[i] = completed + refusals;
      began++;
      m.fire(Mk.ev("e" + i, i));
      look();
    }

    void look() {
      Sym.check("never above the bound", m.getEventQueueSize() <= max);
    }

    private void once(int i) {
      Sym.check("one outcome for each event", (seen & 1 << i) == 0);
      seen |= 1 << i;
    }

    void processed(StateEvent<Object> e) {
      once((Integer) e.getPayload());
      look();
      processed++;
      completed++;
    }

    @Override
    public void onExceptionDuringEventProcessing(StateEvent<Object> e, StateMachine<Object, Object> sm, Thread t,
        Exception x) {
      int i = (Integer) e.getPayload();
      once(i);
      Sym.check("reported with its machine and calling thread", sm == m && t == by[i] && t == Thread.currentThread());
      Sym.check("reported as an illegal state", x instanceof IllegalStateException);
      Sym.check("refused only when full", began - 1 - completedBefore[i] >= max);
      refusals++;
    }

    @Override
    public void onEventAfterMachineEnd(StateEvent<Object> e, StateMachine<Object, Object> sm) {
      Sym.check("no other report", false);
    }

    @Override
    public void onEventBeforeMachineStart(StateEvent<Object> e, StateMachine<Object, Object> sm) {
      Sym.check("no other report", false);
    }
  }

  static void concurrent(boolean working, boolean drop, int max, int... fires) {
    int n = 0;
    for (int f : fires) {
      n += f;
    }
    Watch w = new Watch(max, n);
    Steps steps = new Steps();
    Config<Object, Object> c = Mk.cfg().withUnexpectedFlowListener(w).withMaxQueueSize(max)
        .withUnmappedEventHandler((e, sm) -> w.processed(e));
    if (!working) {
      c.withExecutor(steps);
    }
    GenericStateMachine<Object, Object> m = drop ? Mk.dropMachine(c) : Mk.machine(c);
    NamedState<Object, Object> a = Mk.st("A");
    m.initialSate(a).receives(Mk.ev("z")).itEnds();
    w.m = m;
    m.startInState(a);
    int b = 0;
    for (int f : fires) {
      int from = b;
      Sched.spawn(() -> {
        for (int i = from; i < from + f; i++) {
          w.fire(i);
        }
      });
      b += f;
    }
    Sched.awaitQuiescence();
    if (working) {
      Sym.check("processed or refused", w.seen == (1 << n) - 1 && w.processed + w.refusals == n);
      Sym.check("nothing waits in the end", m.getEventQueueSize() == 0);
      Sym.cover("some refused", w.refusals > 0);
      Sym.cover("none refused", w.refusals == 0);
    } else {
      Sym.check("as many accepted as fit", m.getEventQueueSize() == (n < max ? n : max));
      Sym.check("the others refused", w.refusals == (n < max ? 0 : n - max));
      Sym.cover("some refused", w.refusals > 0);
    }
  }

  @Check(bounds = "maximum 1 or 2, two threads firing two events each while nothing is processed; every interleaving", covers = "some refused")
  public static void fillRace() {
    concurrent(false, false, Sym.split("max", 2) + 1, 2, 2);
  }

  @Check(bounds = "maximum 1, two threads firing two events and one, processed by the default executor; every interleaving", covers = {
      "some refused", "none refused"})
  public static void workRace() {
    concurrent(true, false, 1, 2, 1);
  }

  @Check(bounds = "maximum 1 or 2, drop-duplicate strategy, two threads firing different events while nothing is processed", covers = "some refused")
  public static void fillRaceDrop() {
    concurrent(false, true, Sym.split("max", 2) + 1, 2, 1);
  }

  @Check(bounds = "maximum 2, three threads firing two events, two and one while nothing is processed; every interleaving", covers = "some refused", quick = false)
  public static void fillRace3() {
    concurrent(false, false, 2, 2, 2, 1);
  }

  @Check(bounds = "maximum 1 or 2, two threads firing two events each, processed by the default executor; every interleaving", covers = {
      "some refused", "none refused"}, quick = false)
  public static void workRace2() {
    concurrent(true, false, Sym.split("max", 2) + 1, 2, 2);
  }

  @Check(bounds = "drop-duplicate strategy, maximum 1, two threads firing two events and one, processed by the default executor; every interleaving", covers = {
      "some refused", "none refused"}, quick = false)
  public static void workRaceDrop() {
    concurrent(true, true, 1, 2, 1);
  }

  @Check(bounds = "one event and two more behind it")
  public static void inFlight() {
    Steps steps = new Steps();
    Flow flow = new Flow();
    NamedState<Object, Object> a = Mk.st("A");
    GenericStateMachine<Object, Object> m = configured(Mk.machine(Mk.cfg().withExecutor(steps)
        .withUnexpectedFlowListener(flow).withUnmappedEventHandler(flow)), a);
    int behind = Sym.pick("behind", 3);
    int[] size = {-1};
    a.appendEntryActions((e, sm) -> {
      if (e.getPayload() != null) {
        size[0] = m.getEventQueueSize();
      }
    });
    m.start();
    m.fire(Mk.ev("e", m));
    for (int i = 0; i < 2; i++) {
      if (i < behind) {
        m.fire(Mk.ev("e"));
      }
    }
    steps.run(4);
    Sym.check("the event being worked on has not completed processing and is counted", size[0] == behind + 1);
  }

  @Check(bounds = "1100 events fired from inside the processing of one, without a maximum, with maximum 0 and with maximum 1100 or more; default executor", covers = "unbounded", steps = 20000)
  public static void backlog() {
    int max = new int[] {-1, 0, 1100, 5000}[Sym.split("max", 4)];
    Backlog b = new Backlog(1100, max, false, false, null, null);
    Sym.check("no event is refused when there is room", b.flow.errors == 0 && b.seen == 1100);
    Sym.check("the queue size counts every accepted event", b.waitingWrong == 0);
    b.quiet();
    Sym.cover("unbounded", max < 0);
  }
}
