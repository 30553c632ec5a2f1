package verif.h;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import verif.rt.Check;
import verif.rt.Sched;
import verif.rt.Sym;

/** C04: every accepted event is processed exactly once, in order, with its payload and for its machine. */
public class C04 {
  static final class Tok {
    final int id;
    /** Events whose fire had returned when the fire of this one began. */
    int need;
    /** Number of events processed before this one. */
    int pos;

    Tok(int id) {
      this.id = id;
    }
  }

  /** Records firing and processing of a handful of events. */
  static final class Book {
    final GenericStateMachine<Object, Object> m;
    final Tok[] t;
    int fired, seen, processed;

    Book(GenericStateMachine<Object, Object> m, int n) {
      this.m = m;
      t = new Tok[n];
      for (int i = 0; i < n; i++) {
        t[i] = new Tok(i);
      }
    }

    void fire(int i, String name) {
      NamedStateEvent<Object> e = Mk.ev(name, t[i]);
      t[i].need = fired;
      m.fire(e);
      fired |= 1 << i;
    }

    void seen(Object payload, Object machine) {
      Sym.check("processed for its own machine", machine == m);
      Sym.check("processed with its own payload", payload instanceof Tok && t[((Tok) payload).id] == payload);
      Tok k = (Tok) payload;
      Sym.check("processed once", (seen & 1 << k.id) == 0);
      Sym.check("processed in the order fired", (k.need & ~seen) == 0);
      seen |= 1 << k.id;
      k.pos = processed++;
    }

    void verify(int n) {
      Sym.check("every event fired is processed", seen == fired && fired == (1 << n) - 1 && processed == n);
    }
  }

  static GenericStateMachine<Object, Object> selfMachine(GenericStateMachine<Object, Object> m, Book[] b) {
    NamedState<Object, Object> a = Mk.st("A");
    NamedState<Object, Object> s = Mk.st("B");
    m.initialSate(a).receives(Mk.ev("e")).itTransitionsTo(s);
    m.when(a).receives(Mk.ev("f")).itTransitionsTo(a);
    m.when(s).receives(Mk.ev("e")).itTransitionsTo(a);
    a.appendEntryActions((e, sm) -> {
      if (e.getPayload() != null) {
        b[0].seen(e.getPayload(), sm);
      }
    });
    s.appendEntryActions((e, sm) -> b[0].seen(e.getPayload(), sm));
    return m;
  }

  @Check(bounds = "default strategy and executor; two client threads, one firing two events and one firing one, each mapped or unmapped; every interleaving",
      covers = {"second thread in the middle", "second thread last"})
  public static void twoFirers() {
    Book[] b = new Book[1];
    GenericStateMachine<Object, Object> m = Mk.machine(
        Mk.cfg().withUnmappedEventHandler((e, sm) -> b[0].seen(e.getPayload(), sm)));
    selfMachine(m, b);
    b[0] = new Book(m, 3);
    m.start();
    boolean e1 = Sym.bool("e1");
    Sched.spawn(() -> {
      b[0].fire(0, "e");
      b[0].fire(1, "e");
    });
    Sched.spawn(() -> b[0].fire(2, e1 ? "e" : "f"));
    Sched.awaitQuiescence();
    b[0].verify(3);
    Sym.check("queue is empty when idle", m.getEventQueueSize() == 0);
    Sym.cover("second thread in the middle", b[0].t[2].pos == 1);
    Sym.cover("second thread last", b[0].t[2].pos == 2);
  }

  @Check(bounds = "default strategy and executor; an entry action fires two further events while another thread fires one; every interleaving",
      covers = {"other thread between", "other thread first", "other thread last"})
  public static void fromAction() {
    Book[] b = new Book[1];
    GenericStateMachine<Object, Object> m = Mk.machine(
        Mk.cfg().withUnmappedEventHandler((e, sm) -> b[0].seen(e.getPayload(), sm)));
    NamedState<Object, Object> a = Mk.st("A");
    NamedState<Object, Object> s = Mk.st("B");
    m.initialSate(a).receives(Mk.ev("e")).itTransitionsTo(s);
    m.when(s).receives(Mk.ev("f")).itDoesNotTransition();
    b[0] = new Book(m, 4);
    s.appendEntryActions((e, sm) -> {
      b[0].seen(e.getPayload(), sm);
      b[0].fire(1, "g");
      b[0].fire(2, "g");
    });
    m.start();
    Sched.spawn(() -> b[0].fire(3, "g"));
    b[0].fire(0, "e");
    Sched.awaitQuiescence();
    b[0].verify(4);
    Sym.check("queue is empty when idle", m.getEventQueueSize() == 0);
    Sym.cover("other thread between", b[0].t[3].pos == 2);
    Sym.cover("other thread first", b[0].t[3].pos == 0);
    Sym.cover("other thread last", b[0].t[3].pos == 3);
  }

  @Check(bounds = "an event fired after the machine has become idle, then one more, with another thread firing; every interleaving",
      covers = {"second burst"})
  public static void idleAgain() {
    Book[] b = new Book[1];
    GenericStateMachine<Object, Object> m = Mk.machine(
        Mk.cfg().withUnmappedEventHandler((e, sm) -> b[0].seen(e.getPayload(), sm)));
    selfMachine(m, b);
    b[0] = new Book(m, 3);
    m.start();
    b[0].fire(0, "e");
    Sched.awaitQuiescence();
    Sym.check("processed when idle", b[0].processed == 1);
    Sched.spawn(() -> b[0].fire(1, "e"));
    b[0].fire(2, "f");
    Sched.awaitQuiescence();
    b[0].verify(3);
    Sym.cover("second burst", b[0].t[2].pos == 1);
  }

  static void threads(boolean start, int... fires) {
    Book[] b = new Book[1];
    GenericStateMachine<Object, Object> m = Mk.machine(
        Mk.cfg().withUnmappedEventHandler((e, sm) -> b[0].seen(e.getPayload(), sm)));
    selfMachine(m, b);
    int n = 0;
    for (int f : fires) {
      n += f;
    }
    b[0] = new Book(m, n);
    if (start) {
      m.start();
    } else {
      m.startInState(Mk.st("B"));
    }
    int k = 0;
    String[] names = new String[n];
    for (int i = 0; i < n; i++) {
      names[i] = Sym.split("mapped" + i, 2) == 1 ? "e" : "g";
    }
    for (int f : fires) {
      int from = k;
      Sched.spawn(() -> {
        for (int i = from; i < from + f; i++) {
          b[0].fire(i, names[i]);
        }
      });
      k += f;
    }
    Sched.awaitQuiescence();
    b[0].verify(n);
    Sym.check("queue is empty when idle", m.getEventQueueSize() == 0);
    Sym.cover("last thread first", b[0].t[n - 1].pos < n - 1);
  }

  @Check(bounds = "three client threads firing one event each; every interleaving", covers = "last thread first", quick = false)
  public static void threeFirers() {
    threads(true, 1, 1, 1);
  }

  @Check(bounds = "two client threads firing two events each, machine started in a given state; every interleaving", covers = "last thread first", quick = false)
  public static void twoByTwo() {
    threads(false, 2, 2);
  }

  @Check(bounds = "1100 events, mapped or not, fired from inside the processing of one; default executor", covers = "mapped", steps = 20000)
  public static void backlog() {
    boolean mapped = Sym.split("mapped", 2) == 1;
    Backlog b = new Backlog(1100, -1, mapped, false, "processed in the order fired", null);
    Sym.check("every event fired is processed", b.seen == 1100);
    b.quiet();
    Sym.cover("mapped", mapped);
  }
}
