package verif.h;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory.Config;
import verif.rt.Sched;
import verif.rt.Sym;

/** Many events fired from inside the processing of one, by the default executor. */
final class Backlog {
  int seen, overlaps, disorder, waitingWrong, working;
  final Flow flow = new Flow();
  final GenericStateMachine<Object, Object> m;

  /** Checked at once when not null. */
  final String order, overlap;

  Backlog(int n, int max, boolean mapped, boolean drop, String order, String overlap) {
    this.order = order;
    this.overlap = overlap;
    Config<Object, Object> c = Mk.cfg().withUnexpectedFlowListener(flow).withMaxQueueSize(max)
        .withUnmappedEventHandler((e, sm) -> work(e.getPayload()));
    m = drop ? Mk.dropMachine(c) : Mk.machine(c);
    NamedState<Object, Object> a = Mk.st("A");
    NamedState<Object, Object> b = Mk.st("B");
    a.appendEntryActions((e, sm) -> {
      if (e.getPayload() instanceof Integer) {
        work(e.getPayload());
      }
    });
    b.appendEntryActions((e, sm) -> {
      working++;
      int base = m.getEventQueueSize(); // nothing waits, whether or not the event worked on counts
      for (int i = 0; i < n; i++) {
        sm.fire(Mk.ev(drop ? "e" + i : mapped ? "e" : "u", i));
        if (m.getEventQueueSize() != base + i + 1) {
          waitingWrong++;
        }
      }
      for (int i = 0; drop && i < n; i++) {
        sm.fire(Mk.ev("e" + i, n + i)); // waits already
        if (m.getEventQueueSize() != base + n) {
          waitingWrong++;
        }
      }
      working--;
    });
    StateMachine<Object, Object> w = m.initialSate(a).receives(Mk.ev("go")).itTransitionsTo(b);
    w.when(b).receives(Mk.ev("e")).itTransitionsTo(a);
    w.when(a).receives(Mk.ev("e")).itTransitionsTo(a);
    m.start();
    m.fire(Mk.ev("go"));
    Sched.awaitQuiescence();
  }

  private void work(Object no) {
    working++;
    if (working != 1) {
      overlaps++;
    }
    if (overlap != null) {
      Sym.check(overlap, overlaps == 0);
    }
    Sched.point();
    if ((Integer) no != seen) {
      disorder++;
    }
    if (order != null) {
      Sym.check(order, disorder == 0);
    }
    seen++;
    working--;
  }

  void quiet() {
    Sym.check("nothing else happens", flow.total() == 0 && m.getEventQueueSize() == 0 && !m.isEnded());
  }
}
