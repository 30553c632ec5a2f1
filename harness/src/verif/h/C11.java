package verif.h;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.api.StateEvent;
import verif.rt.Check;
import verif.rt.Sched;
import verif.rt.Sym;

/** C11: the drop-duplicate strategy drops exactly the duplicates. */
public class C11 {
  /** The waiting events (their kinds) and what was processed, in one sequence. */
  static final class Ref {
    final int[] kind = new int[16];
    final int[] id = new int[16];
    int head, tail;

    boolean waits(int k) {
      for (int i = 0; i < 16; i++) {
        if (i >= head && i < tail && kind[i] == k) {
          return true;
        }
      }
      return false;
    }

    /** True if it is queued. */
    boolean fire(int k, int no) {
      if (waits(k)) {
        return false;
      }
      kind[tail] = k;
      id[tail] = no;
      tail++;
      return true;
    }
  }

  static void sequential(int bursts, int per, int nested, boolean split) {
    Steps steps = new Steps();
    Flow flow = new Flow();
    Ref ref = new Ref();
    int[] state = new int[2]; // next number, events still to be fired from inside
    GenericStateMachine<Object, Object>[] ms = new GenericStateMachine[1];
    String[] label = {"nested"};
    NamedState<Object, Object> a = Mk.st("A");
    NamedState<Object, Object> b = Mk.st("B");
    GenericStateMachine<Object, Object> m = Mk.dropMachine(Mk.cfg().withExecutor(steps).withUnexpectedFlowListener(flow)
        .withUnmappedEventHandler((e, sm) -> work(ms[0], ref, state, e, split)));
    ms[0] = m;
    m.initialSate(a).receives(Mk.ev("e0")).itTransitionsTo(b);
    m.when(b).receives(Mk.ev("e0")).itTransitionsTo(a);
    m.when(a).receives(Mk.ev("e1")).itTransitionsTo(a);
    a.appendEntryActions((e, sm) -> work(ms[0], ref, state, e, split));
    b.appendEntryActions((e, sm) -> work(ms[0], ref, state, e, split));
    m.startInState(a);
    state[1] = nested;
    for (int r = 0; r < bursts; r++) {
      for (int i = 0; i < per; i++) {
        fire(m, ref, state, "kind" + r + i, split);
      }
      steps.run(2 * per + nested);
      Sym.check("everything that was not dropped is processed", ref.head == ref.tail);
      Sym.check("nothing waits in the end", m.getEventQueueSize() == 0);
    }
    Sym.check("dropping is silent", flow.total() == 0 && !m.isEnded());
    Sym.cover("some dropped", ref.tail < bursts * per);
    Sym.cover("none dropped", ref.tail == bursts * per + nested);
  }

  static void fire(GenericStateMachine<Object, Object> m, Ref ref, int[] state, String label, boolean split) {
    int k = split ? Sym.split(label, 3) : Sym.pick(label, 3);
    int before = m.getEventQueueSize();
    m.fire(Mk.ev("e" + k, state[0]));
    boolean queued = ref.fire(k, state[0]);
    state[0]++;
    Sym.check("dropped if and only if an equal event waits", m.getEventQueueSize() == before + (queued ? 1 : 0));
  }

  static void work(GenericStateMachine<Object, Object> m, Ref ref, int[] state, StateEvent<Object> e, boolean split) {
    Sym.check("only events that were not dropped are processed, in order", ref.head < ref.tail
        && ((Integer) e.getPayload()) == ref.id[ref.head] && e.getName().equals("e" + ref.kind[ref.head]));
    ref.head++;
    if (state[1] > 0) {
      state[1]--;
      fire(m, ref, state, "nested" + state[1], split);
    }
  }

  @Check(bounds = "three events out of three kinds, the first processed fires another; every choice", covers = {
      "some dropped", "none dropped"})
  public static void oneBurst() {
    sequential(1, 3, 1, false);
  }

  @Check(bounds = "two bursts of three events out of three kinds, two of the processed ones fire another", covers = "some dropped")
  public static void twoBursts() {
    sequential(2, 3, 2, false);
  }

  @Check(bounds = "five events out of five kinds (without a name and with an empty one included) waiting at the same time; every choice of kinds", covers = "a duplicate of the oldest of four")
  public static void longQueue() {
    Steps steps = new Steps();
    Flow flow = new Flow();
    GenericStateMachine<Object, Object> m = Mk.dropMachine(Mk.cfg().withExecutor(steps).withUnexpectedFlowListener(flow)
        .withUnmappedEventHandler(flow));
    NamedState<Object, Object> a = Mk.st("A");
    m.initialSate(a).receives(Mk.ev("e")).itTransitionsTo(a);
    m.startInState(a);
    String[] names = {null, "e1", "", "e3", "e4"};
    int[] k = new int[5];
    int queued = 0;
    for (int i = 0; i < 5; i++) {
      k[i] = Sym.pick("kind" + i, 5);
      m.fire(Mk.ev(names[k[i]], i));
      boolean waits = false;
      for (int j = 0; j < i; j++) {
        waits |= k[j] == k[i];
      }
      if (!waits) {
        queued++;
      }
      Sym.check("dropped if and only if an equal event waits", m.getEventQueueSize() == queued);
    }
    steps.run(6);
    Sym.check("everything that was not dropped is processed", flow.unmapped == queued && flow.total() == queued
        && m.getEventQueueSize() == 0);
    Sym.cover("a duplicate of the oldest of four", queued == 4 && k[4] == k[0]);
  }

  @Check(bounds = "two bursts of four events out of three kinds, three of the processed ones fire another", covers = "some dropped", quick = false)
  public static void longBursts() {
    sequential(2, 4, 3, false);
  }

  @Check(bounds = "two events with any names of up to 2 UTF-16 units and any payloads", covers = {"equal names", "names differing in the last character"})
  public static void anyNames() {
    Steps steps = new Steps();
    Flow flow = new Flow();
    GenericStateMachine<Object, Object> m = Mk.dropMachine(Mk.cfg().withExecutor(steps).withUnexpectedFlowListener(flow)
        .withUnmappedEventHandler(flow));
    NamedState<Object, Object> a = Mk.st("A");
    m.initialSate(a).receives(Mk.ev("e")).itTransitionsTo(a);
    m.startInState(a);
    String n1 = Sym.string("first", 2);
    String n2 = Sym.string("second", 2);
    NamedStateEvent<Object> x = Mk.ev(n1);
    NamedStateEvent<Object> y = Mk.ev(n2);
    if (Sym.bool("payload1")) {
      x.setPayload(1);
    }
    if (Sym.bool("payload2")) {
      y.setPayload(2);
    }
    m.fire(x);
    m.fire(y);
    boolean equal = n1.equals(n2);
    Sym.check("dropped if and only if an equal event waits", m.getEventQueueSize() == (equal ? 1 : 2));
    Sym.check("dropping is silent", flow.total() == 0);
    Sym.cover("equal names", equal && n1.length() == 2);
    Sym.cover("names differing in the last character", !equal && n1.length() == 2 && n2.length() == 2
        && n1.charAt(0) == n2.charAt(0));
  }

  /** Concurrent firing; what happened is judged at the end. */
  static final class Watch {
    final String[] name;
    final int[] seenAtBegin, returnedAtBegin, pos;
    GenericStateMachine<Object, Object> m;
    int returned, began, processed;
    final int[] beganAtReturn;

    Watch(String... name) {
      this.name = name;
      seenAtBegin = new int[name.length];
      returnedAtBegin = new int[name.length];
      beganAtReturn = new int[name.length];
      pos = new int[name.length];
    }

    void fire(int i) {
      NamedStateEvent<Object> e = Mk.ev(name[i], i);
      seenAtBegin[i] = processed;
      returnedAtBegin[i] = returned;
      began |= 1 << i;
      m.fire(e);
      beganAtReturn[i] = began;
      returned |= 1 << i;
    }

    void process(StateEvent<Object> e) {
      int i = (Integer) e.getPayload();
      Sym.check("processed once", pos[i] == 0);
      pos[i] = ++processed;
    }

    boolean justified(int i) {
      for (int j = 0; j < name.length; j++) {
        if (j != i && name[j].equals(name[i]) && pos[j] > seenAtBegin[i] && (beganAtReturn[i] & 1 << j) != 0) {
          return true;
        }
      }
      return false;
    }

    void verify() {
      for (int i = 0; i < name.length; i++) {
        Sym.check("an event is dropped only if an equal one waits", pos[i] > 0 || justified(i));
        for (int j = 0; j < name.length; j++) {
          if (i != j && (returnedAtBegin[j] & 1 << i) != 0) {
            Sym.check("processed in the order fired", pos[i] == 0 || pos[j] == 0 || pos[i] < pos[j]);
          }
        }
      }
      Sym.check("nothing waits in the end", m.getEventQueueSize() == 0);
    }
  }

  static void working(int first, String... names) {
    Watch w = new Watch(names);
    GenericStateMachine<Object, Object> m = Mk.dropMachine(Mk.cfg().withUnmappedEventHandler((e, sm) -> w.process(e)));
    NamedState<Object, Object> a = Mk.st("A");
    m.initialSate(a).receives(Mk.ev("z")).itEnds();
    w.m = m;
    m.startInState(a);
    Sched.spawn(() -> {
      for (int i = 0; i < first; i++) {
        w.fire(i);
      }
    });
    Sched.spawn(() -> {
      for (int i = first; i < names.length; i++) {
        w.fire(i);
      }
    });
    Sched.awaitQuiescence();
    w.verify();
    Sym.cover("some dropped", w.processed < names.length);
    Sym.cover("none dropped", w.processed == names.length);
  }

  @Check(bounds = "two threads, one firing the same event twice and one firing it once, processed by the default executor; every interleaving", covers = {
      "some dropped", "none dropped"})
  public static void workRace() {
    working(2, "e", "e", "e");
  }

  @Check(bounds = "two threads firing two events each, two names, processed by the default executor; every interleaving", covers = {
      "some dropped", "none dropped"}, quick = false)
  public static void workRace2() {
    working(2, "e", "f", "f", "e");
  }

  static void waiting(int first, String... names) {
    Steps steps = new Steps();
    Watch w = new Watch(names);
    GenericStateMachine<Object, Object> m = Mk.dropMachine(Mk.cfg().withExecutor(steps)
        .withUnmappedEventHandler((e, sm) -> w.process(e)));
    NamedState<Object, Object> a = Mk.st("A");
    m.initialSate(a).receives(Mk.ev("z")).itEnds();
    w.m = m;
    m.startInState(a);
    Sched.spawn(() -> {
      for (int i = 0; i < first; i++) {
        w.fire(i);
      }
    });
    Sched.spawn(() -> {
      for (int i = first; i < names.length; i++) {
        w.fire(i);
      }
    });
    Sched.awaitQuiescence();
    int kinds = 0;
    for (int i = 0; i < names.length; i++) {
      boolean known = false;
      for (int j = 0; j < i; j++) {
        known |= names[j].equals(names[i]);
      }
      kinds += known ? 0 : 1;
    }
    Sym.check("two equal events never wait at the same time", m.getEventQueueSize() == kinds);
    steps.run(6);
    Sym.check("every other event is processed", w.processed == kinds);
    w.verify();
    Sym.cover("the second thread's event stays", w.pos[first] > 0);
  }

  @Check(bounds = "two threads firing two events each with two names while nothing is processed; every interleaving", covers = "the second thread's event stays")
  public static void waitRace() {
    waiting(2, "e", "f", "f", "e");
  }

  @Check(bounds = "two threads firing three and two events with two names while nothing is processed; every interleaving", covers = "the second thread's event stays", quick = false)
  public static void waitRace2() {
    waiting(3, "e", "f", "e", "f", "e");
  }

  @Check(bounds = "300 different events, then the same again, fired from inside the processing of one; default executor", covers = "all processed", steps = 20000)
  public static void backlog() {
    Backlog b = new Backlog(300, -1, false, true, null, null);
    Sym.check("every other event is processed once and in order", b.seen == 300 && b.disorder == 0 && b.overlaps == 0);
    Sym.check("dropped if and only if an equal event waits", b.waitingWrong == 0);
    b.quiet();
    Sym.cover("all processed", b.seen == 300);
  }
}
