package verif.h;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.strategy.EventProcessingStrategy;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory.Config;
import verif.rt.Check;
import verif.rt.Sched;
import verif.rt.Sym;

/** C15: machines built independently do not influence each other. */
public class C15 {
  /** A small machine and what it must look like after its own events: A -e- B -e- A ..., f in A goes to C, z ends. */
  static final class Unit {
    final GenericStateMachine<Object, Object> m;
    final NamedState<Object, Object>[] ss;
    int state, entries, unmapped, seen, waiting;
    boolean ended, foreign;

    @SuppressWarnings("unchecked")
    Unit(GenericStateMachine<Object, Object> m) {
      this.m = m;
      ss = new NamedState[] {Mk.st("A"), Mk.st("B"), Mk.st("C")};
      for (NamedState<Object, Object> s : ss) {
        s.appendEntryActions((e, sm) -> {
          seen++;
          foreign |= sm != m || e.getPayload() != this;
        });
      }
    }

    void configure(boolean plain) {
      m.initialSate(ss[0]).receives(Mk.ev("e")).itTransitionsTo(ss[1]);
      m.when(ss[1]).receives(Mk.ev("e")).itTransitionsTo(ss[0]);
      if (!plain) {
        m.when(ss[0]).receives(Mk.ev("f")).itTransitionsTo(ss[2]);
        m.when(ss[2]).receives(Mk.ev("e")).itDoesNotTransition();
      }
      for (int i = 0; i < (plain ? 2 : 3); i++) {
        m.when(ss[i]).receives(Mk.ev("z")).itEnds();
      }
    }

    void fire(String name) {
      m.fire(Mk.ev(name, this));
    }

    /** The event's effect according to this machine's own table. */
    void apply(String name, boolean plain) {
      if (ended) {
        return;
      }
      if (name.equals("z")) {
        ended = true;
      } else if (name.equals("e") && state < 2) {
        state = 1 - state;
        entries++;
      } else if (name.equals("f") && state == 0 && !plain) {
        state = 2;
        entries++;
      } else if (!name.equals("e")) {
        unmapped++;
      }
    }

    void check() {
      Sym.check("each machine is in the state its own events lead to", m.isEnded() == ended
          && (ended ? m.getCurrentState().equals(m.getEndState()) : m.getCurrentState().equals(ss[state])));
      Sym.check("each machine sees its own events, all of them, and no other", seen == entries && !foreign);
    }
  }

  static final String[] NAMES = {"e", "f", "z"};

  /** Two machines made in the given way, with the given configuration (null: defaults). */
  static Unit[] make(int how, Config<Object, Object> c) {
    GenericStateMachine<Object, Object> m1;
    GenericStateMachine<Object, Object> m2;
    if (how == 0) { // strategies from one configuration
      m1 = Mk.machine(c);
      m2 = Mk.machine(c);
    } else if (how == 1) {
      m1 = Mk.dropMachine(c);
      m2 = Mk.dropMachine(c);
    } else if (how == 2) {
      m1 = Mk.machine(c);
      m2 = Mk.dropMachine(c);
    } else if (how == 3) { // defaults, one builder each
      m1 = new GenericStateMachine.Builder<Object, Object>().build();
      m2 = new GenericStateMachine.Builder<Object, Object>().build();
    } else if (how == 4) { // defaults, one builder used twice
      GenericStateMachine.Builder<Object, Object> b = new GenericStateMachine.Builder<>();
      m1 = b.build();
      m2 = b.build();
    } else { // default strategies
      EventProcessingStrategy<Object, Object> s1 = how == 5 ? EventProcessingStrategyFactory.createDefaultStrategy()
          : EventProcessingStrategyFactory.createDropDuplicateStrategy();
      EventProcessingStrategy<Object, Object> s2 = how == 5 ? EventProcessingStrategyFactory.createDefaultStrategy()
          : EventProcessingStrategyFactory.createDropDuplicateStrategy();
      m1 = Mk.machine(s1);
      m2 = Mk.machine(s2);
    }
    return new Unit[] {new Unit(m1), new Unit(m2)};
  }

  static void stepped(int len) {
    Steps steps = new Steps();
    int[] unmapped = new int[1];
    Flow flow = new Flow();
    int how = Sym.split("how", 3);
    int max = Sym.split("max", 2) == 0 ? -1 : 3;
    Config<Object, Object> c = Mk.cfg().withExecutor(steps).withUnexpectedFlowListener(flow).withMaxQueueSize(max)
        .withUnmappedEventHandler((e, sm) -> {
          Unit u = (Unit) e.getPayload();
          u.foreign |= sm != u.m;
          unmapped[0]++;
        });
    Unit[] u = make(how, c);
    u[0].configure(false);
    u[1].configure(true);
    u[0].m.startInState(u[0].ss[0]);
    Sym.check("starting one does not start the other", !u[1].m.isStarted());
    u[1].m.startInState(u[1].ss[0]);
    String[] waiting = new String[3];
    // each round: up to one event for each machine, in either order, then they may be worked on
    for (int r = 0; r < len; r++) {
      String n0 = NAMES[Sym.pick("first" + r, 3)];
      String n1 = NAMES[Sym.pick("second" + r, 3)];
      boolean swap = Sym.bool("swap" + r);
      int before = flow.after;
      u[swap ? 1 : 0].fire(swap ? n1 : n0);
      u[swap ? 0 : 1].fire(swap ? n0 : n1);
      int expectAfter = (u[0].ended ? 1 : 0) + (u[1].ended ? 1 : 0);
      Sym.check("ending one does not end the other", flow.after == before + expectAfter);
      Sym.check("the queue size counts the machine's own events", u[0].m.getEventQueueSize() == (u[0].ended ? 0 : 1)
          && u[1].m.getEventQueueSize() == (u[1].ended ? 0 : 1));
      u[0].apply(n0, false);
      u[1].apply(n1, true);
      steps.run(2);
      u[0].check();
      u[1].check();
      Sym.check("nothing is unmapped by mistake", unmapped[0] == u[0].unmapped + u[1].unmapped && flow.errors == 0);
      if (Sym.bool("stop" + r)) {
        u[0].m.stop();
        u[0].ended = true;
        u[0].check();
        u[1].check();
      }
    }
    Sym.cover("one ended, the other going on", u[0].ended && !u[1].ended && u[1].entries == len);
  }

  @Check(bounds = "two machines with different tables from one configuration (default, drop-duplicate, mixed; bounded or not) on one executor; two rounds of one event for each in either order, stop in between", covers = "one ended, the other going on")
  public static void oneConfig() {
    stepped(2);
  }

  @Check(bounds = "three rounds", covers = "one ended, the other going on", quick = false)
  public static void oneConfigLong() {
    stepped(3);
  }

  @Check(bounds = "two machines from one configuration with both queues filled before anything is worked on; up to three events each, then optionally one is stopped", covers = {
      "stopped with events waiting", "overflow of one"})
  public static void filled() {
    Steps steps = new Steps();
    Flow flow = new Flow();
    int[] unmapped = new int[1];
    int how = Sym.split("how", 3);
    boolean bound = Sym.bool("bound");
    Config<Object, Object> c = Mk.cfg().withExecutor(steps).withUnexpectedFlowListener(flow)
        .withMaxQueueSize(bound ? 2 : 0).withUnmappedEventHandler((e, sm) -> unmapped[0]++);
    Unit[] u = make(how, c);
    u[0].configure(false);
    u[1].configure(true);
    u[0].m.start();
    u[1].m.start();
    u[0].seen = 0;
    u[1].seen = 0;
    u[0].foreign = false;
    u[1].foreign = false;
    int n0 = Sym.pick("n0", 4);
    int n1 = Sym.pick("n1", 4);
    int errors = 0;
    // the events of one machine are all different, so none is dropped as a duplicate
    String[] seq = {"e", "f", "y"};
    for (int i = 0; i < 3; i++) {
      if (i < n0) {
        u[0].fire(seq[i]);
        if (bound && i > 1) {
          errors++;
        } else {
          u[0].waiting++;
          u[0].apply(seq[i], false);
        }
      }
      if (i < n1) {
        u[1].fire(seq[i]);
        if (bound && i > 1) {
          errors++;
        } else {
          u[1].waiting++;
          u[1].apply(seq[i], true);
        }
      }
    }
    Sym.check("a full queue of one machine refuses none of the other", flow.errors == errors);
    Sym.check("the queue size counts the machine's own events", u[0].m.getEventQueueSize() == u[0].waiting
        && u[1].m.getEventQueueSize() == u[1].waiting);
    boolean stop = Sym.bool("stop");
    if (stop) {
      u[0].m.stop();
      u[0].ended = true;
      u[0].entries = 0;
      u[0].unmapped = 0;
    }
    steps.run(7);
    u[0].check();
    u[1].check();
    Sym.check("nothing is unmapped by mistake", unmapped[0] == u[0].unmapped + u[1].unmapped && flow.after == 0);
    Sym.check("nothing waits in the end", u[0].m.getEventQueueSize() == 0 && u[1].m.getEventQueueSize() == 0);
    Sym.cover("stopped with events waiting", stop && n0 == 3 && n1 == 3);
    Sym.cover("overflow of one", bound && n0 == 3 && n1 == 1);
  }

  static void threads(int how, Config<Object, Object> c, String[] a, String[] b) {
    Unit[] u = make(how, c);
    u[0].configure(false);
    u[1].configure(true);
    u[0].m.startInState(u[0].ss[0]);
    u[1].m.startInState(u[1].ss[0]);
    for (String n : a) {
      u[0].apply(n, false);
    }
    for (String n : b) {
      u[1].apply(n, true);
    }
    Sched.spawn(() -> {
      for (String n : a) {
        u[0].fire(n);
      }
    });
    for (String n : b) {
      u[1].fire(n);
    }
    Sched.awaitQuiescence();
    u[0].check();
    u[1].check();
    Sym.check("nothing waits in the end", u[0].m.getEventQueueSize() == 0 && u[1].m.getEventQueueSize() == 0);
  }

  @Check(bounds = "two machines with default settings (own builders, one builder, default and drop-duplicate factory defaults), each with its own thread firing an event of the same name; every interleaving")
  public static void defaults() {
    threads(Sym.split("how", 4) + 3, null, new String[] {"e"}, new String[] {"e"});
  }

  @Check(bounds = "two machines from one configuration sharing an executor, each with its own thread; one receives two events and one ends; every interleaving")
  public static void sharedConfig() {
    Flow flow = new Flow();
    threads(Sym.split("how", 3), Mk.cfg().withUnexpectedFlowListener(flow).withUnmappedEventHandler(flow),
        new String[] {"z"}, new String[] {"e", "f"});
  }

  @Check(bounds = "the same with two events each", quick = false)
  public static void sharedConfig2() {
    Flow flow = new Flow();
    threads(Sym.split("how", 3), Mk.cfg().withUnexpectedFlowListener(flow).withUnmappedEventHandler(flow),
        new String[] {"e", "z"}, new String[] {"e", "f"});
  }

  @Check(bounds = "the same with default settings, two events each", quick = false)
  public static void defaults2() {
    threads(Sym.split("how", 4) + 3, null, new String[] {"e", "f"}, new String[] {"e", "f"});
  }

  @Check(bounds = "the actions of one machine fire at the other one; default settings; every interleaving")
  public static void chained() {
    int how = Sym.split("how", 4) + 3;
    Unit[] u = make(how, null);
    u[0].configure(false);
    u[1].configure(true);
    u[0].ss[1].appendEntryActions((e, sm) -> u[1].fire("e"));
    u[0].m.startInState(u[0].ss[0]);
    u[1].m.startInState(u[1].ss[0]);
    Sched.spawn(() -> u[1].fire("f"));
    u[0].fire("e");
    u[0].apply("e", false);
    u[1].apply("e", true);
    Sched.awaitQuiescence();
    u[0].check();
    u[1].check();
  }
}
