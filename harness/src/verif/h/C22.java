package verif.h;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.UnexpectedFlowListener;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory.Config;
import verif.rt.Cell;
import verif.rt.Check;
import verif.rt.Sched;
import verif.rt.Sym;

/** C22: firing never waits for processing; machines that fire at each other never deadlock. */
public class C22 {
  /** A machine whose callbacks do something the first time. */
  static final class Unit implements StateMachineListener<Object, Object>, UnexpectedFlowListener<Object, Object> {
    /** The context of all machines. */
    static final Object SHARED = new Object();
    final GenericStateMachine<Object, Object> m;
    final NamedState<Object, Object> a = Mk.st("A");
    /** Callback that acts: 0 begin, 1 exit action, 2 entry action, 3 end, 4 unmapped-event handler; 5-7 flow listener. */
    int at = -1;
    Runnable act;
    boolean acted;
    int done, unmapped, before, after, errors;

    Unit(Config<Object, Object> c, boolean drop) {
      c.withUnexpectedFlowListener(this).withUnmappedEventHandler((e, sm) -> {
        unmapped++;
        at(4);
      });
      m = new GenericStateMachine.Builder<Object, Object>().setContext(SHARED).setEventProcessingStrategy(
          drop ? EventProcessingStrategyFactory.createDropDuplicateStrategy(c)
              : EventProcessingStrategyFactory.createDefaultStrategy(c)).build();
      m.initialSate(a).receives(Mk.ev("e")).itTransitionsTo(a);
      m.when(a).receives(new C01.Custom("e", null)).itTransitionsTo(a);
      m.when(a).receives(Mk.ev("f")).itTransitionsTo(a);
      a.appendExitActions((e, sm) -> at(1));
      a.appendEntryActions((e, sm) -> at(2));
      m.setStateMachineListener(this);
    }

    void start() {
      m.startInState(a);
    }

    void at(int k) {
      if (k == at && !acted) {
        acted = true;
        act.run();
      }
    }

    @Override
    public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
      at(0);
    }

    @Override
    public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
      done++;
      at(3);
    }

    @Override
    public void onExceptionDuringEventProcessing(StateEvent<Object> e, StateMachine<Object, Object> sm, Thread t,
        Exception x) {
      errors++;
      at(5);
    }

    @Override
    public void onEventAfterMachineEnd(StateEvent<Object> e, StateMachine<Object, Object> sm) {
      after++;
      at(6);
    }

    @Override
    public void onEventBeforeMachineStart(StateEvent<Object> e, StateMachine<Object, Object> sm) {
      before++;
      at(7);
    }
  }

  @Check(bounds = "any callback of an event takes until another thread's fire has returned; that thread fires the same or another event (of the library's class or an application's), or one at another machine with the same or the other strategy; unbounded queues or maximum 2; every interleaving", covers = {
      "the callback waits", "fired at the other machine"})
  public static void callbackWaits() {
    int at = Sym.split("callback", 5);
    boolean drop = Sym.split("drop", 2) == 1;
    int max = Sym.split("max", 2) == 0 ? -1 : 2;
    int what = Sym.split("what", 3);
    Unit u = new Unit(Mk.cfg().withMaxQueueSize(max), drop);
    Unit o = what == 2 ? new Unit(Mk.cfg().withMaxQueueSize(max), drop) : u;
    u.start();
    if (o != u) {
      o.start();
    }
    Cell back = new Cell();
    boolean[] waits = new boolean[1];
    u.at = at;
    u.act = () -> {
      waits[0] = back.v == 0;
      Sched.block(Sched.NONZERO, back);
    };
    // what == 1: the same event instance, of the library's class or another one
    String name = at == 4 ? "u" : "e";
    StateEvent<Object> e = max > 0 ? new C01.Custom(name, null) : Mk.ev(name);
    u.m.fire(e);
    Sched.spawn(() -> {
      o.m.fire(what == 0 ? Mk.ev("f") : what == 1 ? e : Mk.ev("e"));
      Sched.point();
      back.v = 1;
    });
    Sched.awaitQuiescence();
    Sym.check("fire returns although a callback waits", back.v == 1);
    int all = u.done + u.unmapped + (o == u ? 0 : o.done);
    // an event equal to a waiting one is dropped
    Sym.check("every accepted event is processed", all == 2 || drop && what == 1 && all == 1);
    Sym.check("nothing is reported", u.errors + u.before + u.after == 0);
    Sym.cover("the callback waits", waits[0]);
    Sym.cover("fired at the other machine", waits[0] && o != u);
  }

  @Check(bounds = "any callback of an event takes until the other machine, with its own default executor and the same context, has processed the same event; the same or the other strategy; every interleaving", covers = "the callback waits")
  public static void otherMachineProceeds() {
    int at = Sym.split("callback", 5);
    int kinds = Sym.split("strategies", 4);
    Unit u = new Unit(Mk.cfg(), kinds % 2 == 1);
    Unit o = new Unit(Mk.cfg(), kinds / 2 == 1);
    u.start();
    o.start();
    Cell other = new Cell();
    boolean[] waits = new boolean[1];
    u.at = at;
    u.act = () -> {
      waits[0] = other.v == 0;
      Sched.block(Sched.NONZERO, other);
    };
    o.at = at == 4 ? 4 : 3;
    o.act = () -> other.v = 1;
    StateEvent<Object> e = new C01.Custom(at == 4 ? "u" : "e", null);
    u.m.fire(e);
    o.m.fire(e);
    Sched.awaitQuiescence();
    Sym.check("the other machine processes its event", other.v == 1 && o.done + o.unmapped == 1);
    Sym.check("every accepted event is processed", u.done + u.unmapped == 1);
    Sym.check("nothing is reported", u.errors + u.before + u.after + o.errors + o.before + o.after == 0);
    Sym.cover("the callback waits", waits[0]);
  }

  static void eachOther(int clients, int at, boolean drop, int max) {
    Unit[] u = new Unit[2];
    boolean[] back = new boolean[2];
    boolean[] nested = new boolean[2];
    for (int i = 0; i < 2; i++) {
      u[i] = new Unit(Mk.cfg().withMaxQueueSize(max), drop);
      u[i].start();
    }
    for (int i = 0; i < 2; i++) {
      int k = i;
      u[i].at = at;
      u[i].act = () -> {
        u[1 - k].m.fire(Mk.ev("f"));
        nested[k] = true;
      };
    }
    for (int i = 0; i < 2; i++) {
      int k = i;
      Runnable client = () -> {
        u[k].m.fire(Mk.ev(at == 4 ? "u" : "e"));
        back[k] = true;
      };
      if (clients == 2) {
        Sched.spawn(client);
      } else {
        client.run();
      }
    }
    Sched.awaitQuiescence();
    Sym.check("every fire returns", back[0] && back[1] && nested[0] && nested[1]);
    Sym.check("every accepted event is processed", u[0].done + u[0].unmapped == 2 && u[1].done + u[1].unmapped == 2);
    Sym.check("nothing is reported", u[0].errors + u[1].errors == 0);
  }

  @Check(bounds = "two machines with their own default executors, each firing at the other from any callback, while a client fires at both; both strategies; unbounded queues or maximum 3; every interleaving")
  public static void machinesFireAtEachOther() {
    eachOther(1, Sym.split("callback", 5), Sym.split("drop", 2) == 1, Sym.split("max", 2) == 0 ? -1 : 3);
  }

  @Check(bounds = "the same with a client each, firing from the exit action", quick = false)
  public static void machinesFireAtEachOtherTwoClients() {
    eachOther(2, 1, Sym.split("drop", 2) == 1, Sym.split("max", 2) == 0 ? -1 : 3);
  }

  /** A machine whose next event is reported in the given way: 5 full, 6 ended, 7 not started. */
  static Unit reporting(int how, boolean drop) {
    Steps steps = new Steps();
    Unit u = new Unit(Mk.cfg().withExecutor(steps).withMaxQueueSize(1), drop);
    if (how != 7) {
      u.start();
    }
    if (how == 6) {
      u.m.stop();
    } else if (how == 5) {
      u.m.fire(Mk.ev("e"));
    }
    u.at = how;
    return u;
  }

  @Check(bounds = "the flow listener told of an overflow, of an event after the end or before the start takes until another thread's fire at the same machine has returned; both strategies; every interleaving", covers = "overflow with drop-duplicate")
  public static void flowListenerWaits() {
    int how = 5 + Sym.split("report", 3);
    boolean drop = Sym.split("drop", 2) == 1;
    Unit u = reporting(how, drop);
    Cell back = new Cell();
    boolean[] first = new boolean[1];
    u.act = () -> Sched.block(Sched.NONZERO, back);
    Sched.spawn(() -> {
      // the other one waits if it is told first
      if (!u.acted) {
        u.m.fire(Mk.ev("f"));
      }
      first[0] = true;
    });
    Sched.spawn(() -> {
      Sched.point();
      boolean told = u.acted;
      if (told) {
        u.m.fire(Mk.ev("g"));
      }
      back.v = 1;
    });
    Sched.awaitQuiescence();
    Sym.check("fire returns although a flow listener waits", back.v == 1 && first[0]);
    Sym.cover("overflow with drop-duplicate", how == 5 && drop && u.errors == 2);
  }

  @Check(bounds = "two machines whose flow listeners fire at the other when told of an overflow, of an event after the end or before the start; both strategies; every interleaving of two clients", covers = "two overflows with drop-duplicate")
  public static void flowListenersFireAtEachOther() {
    int how = 5 + Sym.split("report", 3);
    boolean drop = Sym.split("drop", 2) == 1;
    Unit[] u = {reporting(how, drop), reporting(how, drop)};
    boolean[] back = new boolean[2];
    for (int i = 0; i < 2; i++) {
      int k = i;
      u[i].act = () -> {
        Sched.point();
        u[1 - k].m.fire(Mk.ev("g"));
      };
    }
    for (int i = 0; i < 2; i++) {
      int k = i;
      Sched.spawn(() -> {
        u[k].m.fire(Mk.ev("f"));
        back[k] = true;
      });
    }
    Sched.awaitQuiescence();
    Sym.check("every fire returns", back[0] && back[1]);
    int reports = u[0].errors + u[0].before + u[0].after + u[1].errors + u[1].before + u[1].after;
    Sym.check("every event is reported", reports == 4);
    Sym.cover("two overflows with drop-duplicate", how == 5 && drop && u[0].errors == 2);
  }
}
