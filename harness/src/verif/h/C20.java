package verif.h;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.strategy.EventMachinePair;
import com.webotech.statemachine.strategy.EventProcessingStrategy;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory.Config;
import com.webotech.statemachine.util.Threads;
import java.lang.Thread.UncaughtExceptionHandler;
import java.util.HashSet;
import java.util.Set;
import java.util.concurrent.ConcurrentLinkedQueue;
import java.util.concurrent.ThreadFactory;
import verif.rt.Check;
import verif.rt.Logs;
import verif.rt.Sched;
import verif.rt.Sym;

/** C20: strategies honour their configuration; worker threads are named daemons. */
public class C20 {
  /** Queue that counts what is put into it. */
  static final class Counted extends ConcurrentLinkedQueue<EventMachinePair<Object, Object>> {
    int offered;

    @Override
    public boolean offer(EventMachinePair<Object, Object> p) {
      offered++;
      return super.offer(p);
    }

    @Override
    public boolean add(EventMachinePair<Object, Object> p) {
      return offer(p);
    }
  }

  static EventProcessingStrategy<Object, Object> strategy(boolean drop, Config<Object, Object> c) {
    return drop ? EventProcessingStrategyFactory.createDropDuplicateStrategy(c)
        : EventProcessingStrategyFactory.createDefaultStrategy(c);
  }

  @Check(bounds = "every subset of executor, queue, maximum, unmapped-event handler and unexpected-flow listener (set once or twice), both strategies; an event before the start, unmapped, mapped, failing, too many, after the end", covers = {
      "everything configured", "nothing but the executor"})
  public static void options() {
    boolean drop = Sym.split("drop", 2) == 1;
    boolean queue = Sym.split("queue", 2) == 1;
    boolean handler = Sym.split("handler", 2) == 1;
    boolean flowGiven = Sym.split("flow", 2) == 1;
    boolean twice = Sym.bool("twice");
    int max = Sym.range("max", -1, 2);
    Steps steps = new Steps();
    Steps steps0 = new Steps();
    steps.shut = Sym.bool("shut");
    Flow flow = new Flow();
    Flow flow0 = new Flow();
    Flow un = new Flow();
    Flow un0 = new Flow();
    Counted q = new Counted();
    Counted q0 = new Counted();
    Config<Object, Object> c = Mk.cfg();
    if (twice) { // the later value counts
      c.withExecutor(steps0).withMaxQueueSize(7);
      if (queue) {
        c.withEventQueue(q0);
      }
      if (handler) {
        c.withUnmappedEventHandler(un0);
      }
      if (flowGiven) {
        c.withUnexpectedFlowListener(flow0);
      }
    }
    Config<Object, Object> r = c.withMaxQueueSize(max).withExecutor(steps);
    if (queue) {
      c.withEventQueue(q);
    }
    if (handler) {
      c.withUnmappedEventHandler(un);
    }
    if (flowGiven) {
      c.withUnexpectedFlowListener(flow);
    }
    Sym.check("options can be chained", r == c);
    EventProcessingStrategy<Object, Object> s = strategy(drop, c);
    Sym.check("the strategy exposes its unexpected-flow listener", flowGiven ? s.getUnexpectedFlowListener() == flow
        : s.getUnexpectedFlowListener() != null);
    GenericStateMachine<Object, Object> m = Mk.machine(s);
    NamedState<Object, Object> a = Mk.st("A");
    int[] done = new int[1];
    m.initialSate(a).receives(Mk.ev("e")).itTransitionsTo(a);
    m.when(a).receives(Mk.ev("bad")).itTransitionsTo(a);
    m.fire(Mk.ev("e"));
    m.startInState(a);
    a.appendEntryActions((e, sm) -> {
      done[0]++;
      if ("bad".equals(e.getName())) {
        throw new IllegalStateException();
      }
    });
    Sym.check("an event before the start goes to the configured listener", flow.before == (flowGiven ? 1 : 0));
    m.fire(Mk.ev("u"));
    Sym.check("the configured executor runs the work", !steps.idle() && steps0.tail == 0);
    Sym.check("the configured queue holds the events", q.offered == (queue ? 1 : 0) && q0.offered == 0
        && (!queue || q.size() == 1));
    steps.run(2);
    Sym.check("the configured handler gets the unmapped event", un.unmapped == (handler ? 1 : 0) && un0.total() == 0);
    m.fire(Mk.ev("e"));
    m.fire(Mk.ev("bad"));
    steps.run(3);
    int fit = max == 1 ? 1 : 2;
    Sym.check("the configured maximum bounds the queue", done[0] == fit);
    Sym.check("failures and refusals go to the configured listener", flow.errors == (flowGiven ? 1 : 0) && flow0.total() == 0);
    m.stop();
    m.fire(Mk.ev("e"));
    Sym.check("an event after the end goes to the configured listener", flow.after == (flowGiven ? 1 : 0) && un.total() == un.unmapped
        && flow.total() == flow.before + flow.errors + flow.after);
    Sym.cover("everything configured", queue && handler && flowGiven && max > 0);
    Sym.cover("nothing but the executor", !queue && !handler && !flowGiven && max < 0);
  }

  @Check(bounds = "one configuration with a queue, or without, used for two machines; both strategies", covers = "given queue")
  public static void reused() {
    boolean drop = Sym.split("drop", 2) == 1;
    boolean queue = Sym.split("queue", 2) == 1;
    Steps steps = new Steps();
    Flow flow = new Flow();
    Counted q = new Counted();
    Config<Object, Object> c = Mk.cfg().withExecutor(steps).withUnexpectedFlowListener(flow).withUnmappedEventHandler(flow);
    if (queue) {
      c.withEventQueue(q);
    }
    NamedState<Object, Object> a = Mk.st("A");
    GenericStateMachine<Object, Object> m1 = Mk.machine(strategy(drop, c));
    m1.initialSate(a).receives(Mk.ev("e")).itTransitionsTo(a);
    m1.startInState(a);
    m1.fire(Mk.ev("u"));
    GenericStateMachine<Object, Object> m2 = Mk.machine(strategy(drop, c));
    m2.initialSate(a).receives(Mk.ev("e")).itTransitionsTo(a);
    m2.startInState(a);
    Sym.check("a given queue is used whatever it holds", m2.getEventQueueSize() == (queue ? 1 : 0));
    m2.fire(Mk.ev("v"));
    Sym.check("the configured queue holds the events", q.size() == (queue ? 2 : 0));
    Sym.check("the configured executor runs the work", steps.tail == 2);
    steps.run(3);
    Sym.check("the configured handler gets the unmapped events", flow.unmapped == 2 && flow.total() == 2);
    Sym.cover("given queue", queue);
  }

  @Check(bounds = "no option at all, by the configuration, the factory or the builder, default and drop-duplicate: many events, unmapped and failing ones, are survived and the machine works on")
  public static void defaults() {
    int how = Sym.split("how", 5);
    GenericStateMachine<Object, Object> m = how == 0 ? Mk.machine(Mk.cfg()) : how == 1 ? Mk.dropMachine(Mk.cfg())
        : how == 2 ? new GenericStateMachine.Builder<Object, Object>().build()
        : how == 3 ? Mk.machine(EventProcessingStrategyFactory.<Object, Object>createDefaultStrategy())
        : Mk.machine(EventProcessingStrategyFactory.<Object, Object>createDropDuplicateStrategy());
    NamedState<Object, Object> a = Mk.st("A");
    int[] done = new int[2];
    m.initialSate(a).receives(Mk.ev("e")).itTransitionsTo(a);
    m.when(a).receives(Mk.ev("f")).itTransitionsTo(a);
    Logs.on();
    m.fire(Mk.ev("e"));
    Sym.check("an event before the start is logged and ignored", Logs.n == 1);
    m.startInState(a);
    a.appendEntryActions((e, sm) -> {
      done[0]++;
      done[1] += Thread.currentThread().isDaemon() ? 1 : 0;
      if ("e".equals(e.getName())) {
        throw new IllegalStateException();
      }
    });
    m.fire(Mk.ev("e"));
    m.fire(Mk.ev("u"));
    m.fire(Mk.ev("f"));
    Sched.awaitQuiescence();
    Sym.check("every event is processed", done[0] == 2 && m.getEventQueueSize() == 0 && !m.isEnded());
    Sym.check("by a daemon thread", done[1] == 2);
    Sym.check("an unmapped event and a failure are logged and ignored", Logs.n == 3);
    m.stop();
    m.fire(Mk.ev("e"));
    Sym.check("an event after the end is logged and ignored", Logs.n == 4 && done[0] == 2);
  }

  static final String[] PREFIXES = {"worker", "", "a-b", "100%d", "{}", "x 1"};

  static boolean named(Thread t, String prefix) {
    return number(t, prefix) >= 0;
  }

  /** The number in the name prefix-number; -1 if the name is different. */
  static int number(Thread t, String prefix) {
    String n = t.getName();
    if (!n.startsWith(prefix + "-") || n.length() == prefix.length() + 1) {
      return -1;
    }
    int v = 0;
    for (int i = prefix.length() + 1; i < n.length(); i++) {
      char c = n.charAt(i);
      if (c < '0' || c > '9') {
        return -1;
      }
      v = v * 10 + c - '0';
    }
    return v;
  }

  @Check(bounds = "a configured thread name, six prefixes, both strategies")
  public static void threadName() {
    String prefix = PREFIXES[Sym.split("prefix", PREFIXES.length)];
    boolean drop = Sym.split("drop", 2) == 1;
    GenericStateMachine<Object, Object> m = Mk.machine(strategy(drop, Mk.cfg().withThreadName(prefix)));
    NamedState<Object, Object> a = Mk.st("A");
    Thread[] t = new Thread[1];
    m.initialSate(a).receives(Mk.ev("e")).itTransitionsTo(a);
    m.startInState(a);
    a.appendEntryActions((e, sm) -> t[0] = Thread.currentThread());
    m.fire(Mk.ev("e"));
    Sched.awaitQuiescence();
    Sym.check("the worker is a daemon thread with the configured name", t[0] != null && t[0].isDaemon() && named(t[0], prefix));
    GenericStateMachine<Object, Object> m2 = Mk.machine(strategy(!drop, Mk.cfg().withThreadName("second")));
    m2.initialSate(a).receives(Mk.ev("e")).itTransitionsTo(a);
    m2.startInState(a);
    m2.fire(Mk.ev("e"));
    Sched.awaitQuiescence();
    Sym.check("the worker is a daemon thread with the configured name", t[0].isDaemon() && named(t[0], "second"));
    m.fire(Mk.ev("e"));
    Sched.awaitQuiescence();
    Sym.check("the worker is a daemon thread with the configured name", t[0].isDaemon() && named(t[0], prefix));
  }

  @Check(bounds = "1100 threads of two factories, none started", covers = "four digits")
  public static void manyThreads() {
    ThreadFactory f = Threads.newNamedDaemonThreadFactory("f");
    ThreadFactory g = Threads.newNamedDaemonThreadFactory("g", null);
    int n = 1100;
    Set<Integer> nos = new HashSet<>();
    boolean wide = false;
    for (int i = 0; i < n; i++) {
      boolean first = i % 3 != 1;
      Thread t = (first ? f : g).newThread(() -> {
      });
      int no = number(t, first ? "f" : "g");
      Sym.check("a daemon thread named with the prefix, a dash and a number", t.isDaemon() && no >= 0);
      Sym.check("no two threads have the same number", nos.add(no));
      wide |= no > 999;
    }
    Sym.cover("four digits", wide);
  }

  @Check(bounds = "two factories with six prefixes, with or without a handler, up to 12 threads each started or not", covers = "two digits")
  public static void factory() {
    String p = PREFIXES[Sym.split("prefix", PREFIXES.length)];
    boolean handler = Sym.split("handler", 2) == 1;
    int[] ran = new int[2];
    UncaughtExceptionHandler h = (t, e) -> ran[1]++;
    ThreadFactory f = handler ? Threads.newNamedDaemonThreadFactory(p, h) : Threads.newNamedDaemonThreadFactory(p);
    ThreadFactory g = Threads.newNamedDaemonThreadFactory("worker", null);
    int n = 12;
    int[] no = new int[n];
    Thread[] ts = new Thread[n];
    for (int i = 0; i < n; i++) {
      boolean first = i % 3 != 1;
      ts[i] = (first ? f : g).newThread(() -> ran[0]++);
      Sym.check("a daemon thread named with the prefix, a dash and a number", ts[i] != null && ts[i].isDaemon()
          && named(ts[i], first ? p : "worker"));
      no[i] = number(ts[i], first ? p : "worker");
      for (int j = 0; j < i; j++) {
        Sym.check("no two threads have the same number", no[i] != no[j] && ts[i] != ts[j]);
      }
      Sym.check("the given handler is carried", !first || !handler || ts[i].getUncaughtExceptionHandler() == h);
    }
    Sym.check("the task only runs when the thread is started", ran[0] == 0);
    int k = Sym.pick("started", 3);
    for (int i = 0; i < 2; i++) {
      if (i < k) {
        Sched.startRaw(ts[i]);
      }
    }
    Sched.awaitQuiescence();
    Sym.check("a started thread runs its task once", ran[0] == k && ran[1] == 0);
    Sym.cover("two digits", no[11] > 9);
  }

  @Check(bounds = "two threads creating two threads each, by one factory or two; every interleaving")
  public static void factoryRace() {
    ThreadFactory f = Threads.newNamedDaemonThreadFactory("w");
    ThreadFactory g = Sym.split("factories", 2) == 1 ? Threads.newNamedDaemonThreadFactory("w", null) : f;
    int[] no = new int[4];
    Sched.spawn(() -> {
      no[0] = number(f.newThread(() -> {
      }), "w");
      no[1] = number(f.newThread(() -> {
      }), "w");
    });
    Sched.spawn(() -> {
      no[2] = number(g.newThread(() -> {
      }), "w");
      no[3] = number(g.newThread(() -> {
      }), "w");
    });
    Sched.awaitQuiescence();
    for (int i = 0; i < 4; i++) {
      Sym.check("named with a number", no[i] >= 0);
      for (int j = 0; j < i; j++) {
        Sym.check("no two threads have the same number", no[i] != no[j]);
      }
    }
  }

  @Check(bounds = "any context (null included), listener given to the builder or not, custom strategy or not; the builder reused with another context", covers = "no context")
  public static void builder() {
    Object[] ctx = {null, new Object(), "text"};
    Object c1 = ctx[Sym.pick("first", 3)];
    Object c2 = ctx[Sym.pick("second", 3)];
    boolean listen = Sym.bool("listener");
    Steps steps = new Steps();
    Flow flow = new Flow();
    int[] n = new int[2];
    StateMachineListener<Object, Object> l = new StateMachineListener<Object, Object>() {
      @Override
      public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
        n[0]++;
      }

      @Override
      public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
        n[1]++;
      }
    };
    GenericStateMachine.Builder<Object, Object> b = new GenericStateMachine.Builder<>();
    b.setContext(c1);
    if (listen) {
      b.setStateMachineListener(l);
    }
    b.setEventProcessingStrategy(EventProcessingStrategyFactory.createDefaultStrategy(Mk.cfg().withExecutor(steps)
        .withUnexpectedFlowListener(flow).withUnmappedEventHandler(flow)));
    GenericStateMachine<Object, Object> m = b.build();
    GenericStateMachine<Object, Object> m2 = b.setContext(c2).setEventProcessingStrategy(EventProcessingStrategyFactory
        .createDefaultStrategy(Mk.cfg().withExecutor(steps))).setStateMachineListener(null).build();
    Sym.check("a machine exposes exactly its context", m.getContext() == c1 && m2.getContext() == c2);
    NamedState<Object, Object> a = Mk.st("A");
    Object[] saw = {"nothing"};
    m.initialSate(a).receives(Mk.ev("e")).itDoesNotTransition();
    a.appendEntryActions((e, sm) -> saw[0] = sm.getContext());
    m.start();
    Sym.check("actions see the context", saw[0] == c1 && m.getContext() == c1);
    m.fire(Mk.ev("u"));
    Sym.check("the given strategy is used", !steps.idle() && m.getEventQueueSize() == 1);
    steps.run(2);
    Sym.check("the given strategy is used", flow.unmapped == 1);
    Sym.check("the given listener is notified", n[0] == (listen ? 1 : 0) && n[1] == n[0]);
    Sym.cover("no context", c1 == null && c2 != null);
  }
}
