package verif.h;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import verif.rt.Check;
import verif.rt.Sym;

/** C01: events move the machine exactly as configured. */
public class C01 {
  /** Configures one symbolic table cell: 0 unmapped, 1 ends, 2 does not transition, 3.. transitions to ss[k-3]. */
  static void cell(StateMachine<Object, Object> m, NamedState<Object, Object> s, NamedStateEvent<Object> e, int k,
      NamedState<Object, Object>[] ss) {
    if (k > 0) {
      StateMachine<Object, Object> w = m.when(s).receives(e);
      if (k == 1) {
        w.itEnds();
      } else if (k == 2) {
        w.itDoesNotTransition();
      } else {
        w.itTransitionsTo(ss[k - 3]);
      }
    }
  }

  static void history(int events, int fires) {
    @SuppressWarnings("unchecked")
    NamedState<Object, Object>[] ss = new NamedState[] {Mk.st("A"), Mk.st("B"), Mk.st("C"), Mk.st("")};
    NamedStateEvent<Object>[] es = evs(events + 1);
    Steps steps = new Steps();
    Flow flow = new Flow();
    GenericStateMachine<Object, Object> m = Mk.machine(steps, flow);
    int[][] t = new int[3][events + 1];
    // C may be a terminal state; the state named "" is never configured; the last event is never mapped
    boolean endC = Sym.bool("C ends");
    boolean cellsToo = Sym.bool("after what is configured for it then");
    for (int s = 0; s < 3; s++) {
      for (int e = 0; e < events; e++) {
        t[s][e] = Sym.pick("cell" + s + e, 7);
      }
    }
    boolean first = true;
    for (int s = 0; s < 3; s++) {
      if (s == 2 && endC) {
        m.when(ss[2]).itEnds();
      }
      if (s != 2 || !endC || cellsToo) {
        for (int e = 0; e < events; e++) {
          int k = t[s][e];
          if (s == 0 && e == 0) {
            // the first cell continues initialSate()
            m.initialSate(ss[0]);
            Sym.assume(k > 0);
            StateMachine<Object, Object> w = m.receives(es[0]);
            if (k == 1) {
              w.itEnds();
            } else if (k == 2) {
              w.itDoesNotTransition();
            } else {
              w.itTransitionsTo(ss[k - 3]);
            }
          } else {
            cell(m, ss[s], es[e], k, ss);
          }
        }
      }
    }
    // B and C exist only if some cell of theirs is mapped, or C ends
    boolean bConf = false;
    boolean cConf = endC;
    for (int e = 0; e < events; e++) {
      bConf |= t[1][e] > 0;
      cConf |= t[2][e] > 0;
    }
    boolean[] conf = {true, bConf, cConf, false};
    int cur = Sym.pick("start", 3);
    if (Sym.bool("startIn")) {
      Sym.assume(conf[cur] && !(cur == 2 && endC));
      m.startInState(Mk.st(ss[cur].getName()));
    } else {
      cur = 0;
      m.start();
    }
    boolean ended = false;
    Sym.check("running after start", m.isStarted() && !m.isEnded() && m.getCurrentState().equals(ss[cur]));
    for (int i = 0; i < fires; i++) {
      if (!ended) {
        int e = Sym.pick("event" + i, events + 1);
        int un = flow.unmapped;
        NamedStateEvent<Object> fired = Mk.ev(es[e].getName());
        int k = t[cur][e];
        m.fire(fired);
        Sym.check("no move before processing", m.getCurrentState().equals(ss[cur]));
        steps.run(3);
        Sym.check("one unmapped call iff no mapping", flow.unmapped == un + (k == 0 ? 1 : 0));
        Sym.check("nothing unexpected", flow.errors == 0 && flow.after == 0 && flow.before == 0);
        if (k == 0) {
          Sym.check("unmapped call arguments", flow.machine == m && flow.event.equals(fired));
        } else if (k == 1) {
          ended = true;
        } else if (k > 2) {
          cur = k - 3;
          ended = !conf[cur] || cur == 2 && endC;
        }
        Sym.cover("unmapped", k == 0 && i == 1);
        Sym.cover("ends by event", k == 1 && i == 1);
        Sym.cover("no transition", k == 2 && i == 1);
        Sym.cover("ends by terminal state", k == 5 && endC && i == 1);
        Sym.cover("ends by unconfigured state", k == 6 && i == 1);
        Sym.cover("self transition", k == 4 && i == 1 && t[1][e] == k && !ended);
        Sym.check("ended exactly as configured", m.isEnded() == ended);
        Sym.check("current state exactly as configured", m.getCurrentState().equals(ended ? m.getEndState() : ss[cur]));
        Sym.check("still started", m.isStarted());
      }
    }
    Sym.cover("alive after the history", !ended);
  }

  @SuppressWarnings("unchecked")
  static NamedStateEvent<Object>[] evs(int n) {
    String[] names = {"e", "f", "g", "h"};
    NamedStateEvent<Object>[] r = new NamedStateEvent[n];
    for (int i = 0; i < n; i++) {
      r[i] = Mk.ev(names[i]);
    }
    return r;
  }

  @Check(bounds = "every table over 3 states x 2 events (+1 unmapped event, +1 unconfigured target): each cell unmapped / ends / does not transition / any of 4 targets, third state optionally terminal; start() or startInState(any configured state); every history of 2 events processed one by one",
      covers = {"unmapped", "ends by event", "no transition", "ends by terminal state", "ends by unconfigured state",
          "self transition", "alive after the history"}, quickOnly = true)
  public static void tables2() {
    history(2, 2);
  }

  @Check(bounds = "every table over 3 states x 3 events (+1 unmapped event, +1 unconfigured target), histories of 3 events",
      covers = {"unmapped", "ends by event", "no transition", "ends by terminal state", "ends by unconfigured state",
          "self transition", "alive after the history"}, quick = false)
  public static void tables3() {
    history(3, 3);
  }

  @Check(bounds = "state names a, b and event names p, q, r: any strings of at most 2 characters (any UTF-16 unit); fresh instances fired, with or without payload", covers = {
      "mapped by an equal name", "unmapped", "second hop", "same state name"})
  public static void names() {
    String a = Sym.string("a", 2);
    String b = Sym.string("b", 2);
    String p = Sym.string("p", 2);
    String q = Sym.string("q", 2);
    String r = Sym.string("r", 2);
    Steps steps = new Steps();
    Flow flow = new Flow();
    GenericStateMachine<Object, Object> m = Mk.machine(steps, flow);
    m.initialSate(Mk.st(a)).receives(Mk.ev(p)).itTransitionsTo(Mk.st(b));
    Sym.assume(!(a.equals(b) && p.equals(q)));
    m.when(Mk.st(b)).receives(Mk.ev(q)).itTransitionsTo(Mk.st(a));
    m.start();
    boolean inB = a.equals(b);
    for (int i = 0; i < 2; i++) {
      int un = flow.unmapped;
      boolean useR = Sym.bool("r" + i);
      NamedStateEvent<Object> e = Mk.ev(useR ? r : p, Sym.bool("payload" + i) ? flow : null);
      boolean isP = e.getName().equals(p);
      boolean isQ = e.getName().equals(q);
      boolean same = a.equals(b);
      boolean mapped = same ? isP || isQ : inB ? isQ : isP;
      m.fire(e);
      steps.run(3);
      Sym.check("unmapped exactly when no equal name is mapped", flow.unmapped == un + (mapped ? 0 : 1));
      if (mapped && !same) {
        inB = !inB;
      }
      Sym.check("state matched by name", m.getCurrentState().getName().equals(same || inB ? b : a));
      Sym.check("alive", !m.isEnded() && flow.errors == 0);
      Sym.cover("mapped by an equal name", mapped && useR);
      Sym.cover("unmapped", !mapped);
      Sym.cover("second hop", i == 1 && mapped && !same && !inB);
      Sym.cover("same state name", same && isQ);
    }
  }

  @Check(bounds = "initial state that ends immediately, or one without behaviour of its own reached by start(); its entry action fires zero to two events", covers = {
      "ends at once", "ends although events wait"})
  public static void initialEnds() {
    Steps steps = new Steps();
    Flow flow = new Flow();
    GenericStateMachine<Object, Object> m = Mk.machine(steps, flow);
    boolean ends = Sym.bool("ends");
    NamedState<Object, Object> a = Mk.st("A");
    int[] n = new int[1];
    int fires = Sym.pick("fired by the entry action", 3);
    boolean mapped = Sym.bool("mapped");
    a.appendEntryActions((e, sm) -> {
      n[0]++;
      for (int i = 0; i < 2; i++) {
        if (i < fires) {
          sm.fire(Mk.ev(mapped ? "e" : "u"));
        }
      }
    });
    if (ends) {
      m.initialSate(a).itEnds();
    } else {
      m.initialSate(a).receives(Mk.ev("e")).itEnds();
    }
    m.start();
    Sym.check("entered once", n[0] == 1);
    Sym.check("a terminal initial state ends the machine", m.isEnded() == ends);
    Sym.check("current state", m.getCurrentState().equals(ends ? m.getEndState() : a));
    m.fire(Mk.ev("e"));
    steps.run(3);
    Sym.check("ended in the end", m.isEnded() && m.getCurrentState().equals(m.getEndState()));
    Sym.check("reported after the end", flow.after == (ends ? 1 : 0) && flow.total() == flow.after + flow.unmapped);
    Sym.check("unmapped events of the entry action", flow.unmapped == (ends || mapped ? 0 : fires));
    Sym.cover("ends at once", ends);
    Sym.cover("ends although events wait", ends && fires == 2);
  }

  /** A user's own event class, equal by name. */
  static final class Custom implements StateEvent<Object> {
    final String name;
    Object payload;

    Custom(String name, Object payload) {
      this.name = name;
      this.payload = payload;
    }

    @Override
    public String getName() {
      return name;
    }

    @Override
    public Object getPayload() {
      return payload;
    }

    @Override
    public void setPayload(Object p) {
      payload = p;
    }

    @Override
    public boolean equals(Object o) {
      return o instanceof Custom && ((Custom) o).name.equals(name);
    }

    @Override
    public int hashCode() {
      return name.hashCode();
    }
  }

  static void custom(boolean payload) {
    Steps steps = new Steps();
    Flow flow = new Flow();
    GenericStateMachine<Object, Object> m = Mk.machine(steps, flow);
    NamedState<Object, Object> a = Mk.st("A");
    m.initialSate(a).receives(new Custom("e", null)).itTransitionsTo(Mk.st("B"));
    m.when(Mk.st("B")).receives(new Custom("e", null)).itEnds();
    m.start();
    boolean mapped = Sym.bool("mapped");
    m.fire(new Custom(mapped ? "e" : "f", payload ? flow : null));
    steps.run(3);
    Sym.check("custom event is matched by name", m.getCurrentState().getName().equals(mapped ? "B" : "A"));
    Sym.check("unmapped custom event", flow.unmapped == (mapped ? 0 : 1) && flow.errors == 0);
    Sym.cover("mapped", mapped);
  }

  @Check(bounds = "an event class of the user, equal by name, without payload", covers = {"mapped"})
  public static void customEvent() {
    custom(false);
  }

  @Check(bounds = "an event class of the user, equal by name, fired with a payload", covers = {"mapped"})
  public static void customEventPayload() {
    custom(true);
  }
}
