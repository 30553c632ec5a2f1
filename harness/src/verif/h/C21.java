package verif.h;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.LoggingStateMachineListener;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.strategy.DefaultUnexpectedFlowListener;
import verif.rt.Check;
import verif.rt.Logs;
import verif.rt.Sym;

/** C21: tracking logs say what happened. */
public class C21 {
  static final String[] OWN = {null, "", "own", "{} me", "   ", "null", "\t"};
  static final String[] SRC = {"source", "src {}", "null"};
  static final String[] EVT = {"event", "%s{}", "evt.1"};
  static final String[] DST = {"target", "{}{}", "_NOOP_"};

  /** The words occur in the text in this order, without overlap. */
  static boolean inOrder(String text, String... words) {
    int at = 0;
    for (String w : words) {
      int i = text.indexOf(w, at);
      if (i < 0) {
        return false;
      }
      at = i + w.length();
    }
    return true;
  }

  @Check(bounds = "listeners named by seven names (null and empty included), three source, event and target names each (placeholders included), a self-transition or not, one to three notifications", covers = {
      "named", "unnamed"})
  public static void listener() {
    Logs.on();
    int o = Sym.split("own name", OWN.length);
    String own = OWN[o];
    LoggingStateMachineListener<Object, Object> l = own == null && Sym.split("constructor", 2) == 0
        ? new LoggingStateMachineListener<>() : new LoggingStateMachineListener<>(own);
    String f = SRC[Sym.pick("from", 3)];
    String e = EVT[Sym.pick("event", 3)];
    String target = DST[Sym.pick("to", 3)];
    State<Object, Object> from = Mk.st(f);
    boolean self = Sym.split("self-transition", 2) == 1;
    State<Object, Object> to = self ? from : Mk.st(target);
    String t = self ? f : target;
    StateEvent<Object> ev = Mk.ev(e, "payload");
    boolean named = own != null && !own.isEmpty();
    l.onStateChangeBegin(from, ev, to);
    Sym.check("exactly one record per notification", Logs.n == 1);
    String b = Logs.recs[0].text;
    Sym.check("a begin record names source, event and target", inOrder(b, f, e, t));
    Sym.check("the listener's name precedes them if and only if it has one", !named || inOrder(b, own, f, e, t));
    l.onStateChangeEnd(from, ev, to);
    Sym.check("exactly one record per notification", Logs.n == 2);
    String n = Logs.recs[1].text;
    Sym.check("an end record names the target", inOrder(n, t));
    Sym.check("the listener's name precedes them if and only if it has one", !named || inOrder(n, own, t));
    if (!named) {
      LoggingStateMachineListener<Object, Object> plain = new LoggingStateMachineListener<>();
      plain.onStateChangeBegin(from, ev, to);
      plain.onStateChangeEnd(from, ev, to);
      Sym.check("exactly one record per notification", Logs.n == 4);
      Sym.check("a listener with an empty name or none logs without a name", b.equals(Logs.recs[2].text)
          && n.equals(Logs.recs[3].text));
    }
    Sym.cover("named", named);
    Sym.cover("unnamed", !named);
  }

  @Check(bounds = "the logging listener on a machine: start and two events out of transition, non-transition, unmapped and ending", covers = "a non-transition is logged")
  public static void machineLog() {
    Steps steps = new Steps();
    Flow flow = new Flow();
    GenericStateMachine<Object, Object> m = Mk.machine(steps, flow);
    NamedState<Object, Object> a = Mk.st("Aa");
    NamedState<Object, Object> b = Mk.st("Bb");
    m.initialSate(a).receives(Mk.ev("go")).itTransitionsTo(b);
    m.when(a).receives(Mk.ev("no")).itDoesNotTransition();
    m.when(a).receives(Mk.ev("zz")).itEnds();
    m.when(b).receives(Mk.ev("go")).itTransitionsTo(a);
    m.when(b).receives(Mk.ev("zz")).itEnds();
    boolean named = Sym.split("named", 2) == 1;
    m.setStateMachineListener(named ? new LoggingStateMachineListener<>("log") : new LoggingStateMachineListener<>());
    Logs.on();
    m.start();
    Sym.check("exactly one record per notification", Logs.n == 2);
    Sym.check("a begin record names source, event and target", inOrder(Logs.recs[0].text, named ? "log" : "", "_UNINITIALISED_", "_immediate_", "Aa"));
    Sym.check("an end record names the target", inOrder(Logs.recs[1].text, named ? "log" : "", "Aa"));
    String[] events = {"go", "no", "zz", "uu"};
    String cur = "Aa";
    for (int i = 0; i < 2; i++) {
      int k = Sym.split("event" + i, 4);
      int n = Logs.n;
      m.fire(Mk.ev(events[k]));
      steps.run(2);
      boolean end = "_END_".equals(cur);
      boolean seen = !end && (k == 0 || k == 2 || k == 1 && cur.equals("Aa"));
      Sym.check("exactly one record per notification", Logs.n == n + (seen ? 2 : 0));
      if (seen) {
        String to = k == 0 ? (cur.equals("Aa") ? "Bb" : "Aa") : k == 1 ? "_NOOP_" : "_END_";
        Sym.check("a begin record names source, event and target", inOrder(Logs.recs[n].text, named ? "log" : "", cur, events[k], to));
        Sym.check("an end record names the target", inOrder(Logs.recs[n + 1].text, named ? "log" : "", to));
        if (k != 1) {
          cur = to;
        }
        Sym.cover("a non-transition is logged", k == 1);
      }
    }
  }

  @Check(bounds = "each report of the default unexpected-flow listener, three event, state and thread names each", covers = "exception")
  public static void unexpectedFlow() {
    Flow flow = new Flow();
    GenericStateMachine<Object, Object> m = Mk.machine(new Steps(), flow);
    String s = SRC[Sym.pick("state", 3)];
    String e = EVT[Sym.pick("event", 3)];
    NamedState<Object, Object> a = Mk.st(s);
    m.initialSate(a).receives(Mk.ev("x")).itTransitionsTo(a);
    m.start();
    DefaultUnexpectedFlowListener<Object, Object> l = new DefaultUnexpectedFlowListener<>();
    Logs.on();
    int k = Sym.split("report", 3);
    Exception cause = new IllegalArgumentException("cause");
    Exception[] exceptions = {new java.io.IOException("io"), new IllegalStateException(), new IllegalStateException(cause),
        new IllegalStateException(null, cause), new Exception("{}", cause), new NullPointerException(),
        new java.util.concurrent.ExecutionException(cause), new InterruptedException()};
    Exception x = exceptions[Sym.split("exception", exceptions.length)];
    Thread th = new Thread(() -> {
    });
    String tn = Sym.split("thread", 2) == 0 ? "thread-7" : "{}";
    th.setName(tn);
    if (k == 0) {
      l.onEventBeforeMachineStart(Mk.ev(e), m);
    } else if (k == 1) {
      l.onEventAfterMachineEnd(Mk.ev(e), m);
    } else {
      l.onExceptionDuringEventProcessing(Mk.ev(e), m, th, x);
    }
    Sym.check("exactly one record per call", Logs.n == 1);
    Logs.Rec r = Logs.recs[0];
    Sym.check("the record names the event", r.text.indexOf(e) >= 0);
    if (k == 2) {
      Sym.check("an exception is logged at error level with state, thread and exception", r.level >= Logs.ERROR
          && r.text.indexOf(s) >= 0 && r.text.indexOf(tn) >= 0 && r.thrown == x);
    }
    Sym.cover("exception", k == 2);
  }

  @Check(bounds = "default handlers in a machine: an event before the start, unmapped, failing or after the end", covers = {
      "unmapped", "failing"})
  public static void defaults() {
    Steps steps = new Steps();
    GenericStateMachine<Object, Object> m = Sym.split("drop", 2) == 1 ? Mk.dropMachine(Mk.cfg().withExecutor(steps))
        : Mk.machine(Mk.cfg().withExecutor(steps));
    NamedState<Object, Object> a = Mk.st("Aa");
    m.initialSate(a).receives(Mk.ev("bad")).itTransitionsTo(a);
    RuntimeException x = Sym.split("cause", 2) == 1 ? new IllegalStateException(null, new IllegalArgumentException())
        : new IllegalArgumentException();
    a.appendExitActions((e, sm) -> {
      throw x;
    });
    int when = Sym.split("when", 3);
    if (when > 0) {
      m.start();
    }
    if (when > 1) {
      m.stop();
    }
    String name = Sym.split("unmapped", 2) == 1 ? "odd" : "bad";
    Logs.on();
    m.fire(Mk.ev(name));
    steps.run(2);
    Sym.check("exactly one record per call", Logs.n == 1);
    Sym.check("the record names the event", Logs.recs[0].text.indexOf(name) >= 0);
    boolean failing = when == 1 && name.equals("bad");
    Sym.check("an exception is logged at error level with state, thread and exception", !failing
        || Logs.recs[0].level >= Logs.ERROR && Logs.recs[0].thrown == x && Logs.recs[0].text.indexOf("Aa") >= 0
        && Logs.recs[0].text.indexOf(Thread.currentThread().getName()) >= 0);
    Sym.cover("unmapped", when == 1 && !failing);
    Sym.cover("failing", failing);
  }
}
