package verif.h;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import verif.rt.Check;
import verif.rt.Sym;

/** C09: configuration mistakes are refused, valid ones are kept. */
public class C09 {
  static final int INIT = 0, WHEN = 1, RECEIVES = 2, TO = 3, ENDS = 4, NOOP = 5;
  static final int NONE = 0, END = 1, STAY = 2; // cell contents; 3 + t for a transition to state t

  /** The documented rules of the fluent configuration, over two ordinary states and two ordinary events. */
  static final class Model {
    int init = -1, state = -1, event = -1;
    final boolean[] configured = new boolean[2];
    final boolean[] endsAtOnce = new boolean[2];
    final boolean[][] declared = new boolean[2][2];
    final int[][] cell = new int[2][2];

    /** True if the call is to be accepted; then its effect is applied. s and e: 0 and 1 ordinary, above: reserved. */
    boolean call(int op, int s, int e) {
      if (op == INIT) {
        if (s > 1 || init >= 0) {
          return false;
        }
        init = s;
        configured[s] = true;
        state = s;
        return true;
      }
      if (op == WHEN) {
        if (s > 1 || init < 0 || state >= 0) {
          return false;
        }
        configured[s] = true;
        state = s;
        return true;
      }
      if (op == RECEIVES) {
        if (e > 1 || state < 0) {
          return false;
        }
        event = e;
        declared[state][e] = true;
        return true;
      }
      if (op == ENDS && state >= 0 && event < 0) {
        if (endsAtOnce[state] || declared[state][0] || declared[state][1]) {
          return false;
        }
        endsAtOnce[state] = true;
        state = -1;
        return true;
      }
      if (op == TO && s > 1 || state < 0 || event < 0 || cell[state][event] != NONE) {
        return false;
      }
      cell[state][event] = op == TO ? 3 + s : op == ENDS ? END : STAY;
      state = -1;
      event = -1;
      return true;
    }

    boolean startable() {
      if (init < 0) {
        return false;
      }
      for (int s = 0; s < 2; s++) {
        for (int e = 0; e < 2; e++) {
          if (declared[s][e] && cell[s][e] == NONE) {
            return false;
          }
        }
      }
      return true;
    }
  }

  static final String[] RESERVED = {"_END_", "_NOOP_", "_UNINITIALISED_"};

  static void sequence(int len, boolean reserved, boolean viaStart, boolean continued) {
    Steps steps = new Steps();
    Flow flow = new Flow();
    GenericStateMachine<Object, Object> m = Mk.machine(steps, flow);
    Model mod = new Model();
    if (continued) {
      m.initialSate(Mk.st("A"));
      mod.call(INIT, 0, 0);
      m.receives(Mk.ev("e"));
      mod.call(RECEIVES, 0, 0);
      int k = Sym.split("first", 3);
      if (k == 0) {
        m.itTransitionsTo(Mk.st("B"));
      } else if (k == 1) {
        m.itDoesNotTransition();
      } else {
        m.itEnds();
      }
      mod.call(k == 0 ? TO : k == 1 ? NOOP : ENDS, 1, 0);
    }
    int which = Sym.pick("reserved", reserved ? 3 : 1);
    boolean refusedOnce = false;
    for (int i = 0; i < len; i++) {
      int op = Sym.pick("op" + i, 6);
      int s = Sym.pick("s" + i, reserved ? 3 : 2);
      int e = Sym.pick("e" + i, reserved ? 3 : 2);
      // an event received by a state that ends at once is not specified
      Sym.assume(op != RECEIVES || mod.state < 0 || !mod.endsAtOnce[mod.state]);
      boolean accepted = true;
      // equal names are never the same String object
      NamedState<Object, Object> st = Mk.st((s == 0 ? Mk.fresh("A", "A", "A") : s == 1 ? Mk.fresh("B", "B", "B")
          : Mk.fresh(RESERVED))[which]);
      NamedStateEvent<Object> ev = Mk.ev(Mk.fresh("e", "f", "_immediate_")[e]);
      try {
        Object r;
        if (op == INIT) {
          r = m.initialSate(st);
        } else if (op == WHEN) {
          r = m.when(st);
        } else if (op == RECEIVES) {
          r = m.receives(ev);
        } else if (op == TO) {
          r = m.itTransitionsTo(st);
        } else if (op == ENDS) {
          r = m.itEnds();
        } else {
          r = m.itDoesNotTransition();
        }
        Sym.check("configuration calls return the machine", r == m);
      } catch (IllegalStateException x) {
        accepted = false;
      }
      boolean expected = mod.call(op, s, e);
      Sym.check("a legal configuration call is accepted", accepted || !expected);
      Sym.check("an illegal configuration call is refused", expected || !accepted);
      refusedOnce |= !expected;
    }
    Sym.check("configuring does not start the machine", !m.isStarted() && !m.isEnded());
    int cur;
    if (viaStart) {
      boolean started = true;
      try {
        m.start();
      } catch (IllegalStateException x) {
        started = false;
      }
      Sym.check("an incomplete machine refuses to start and a complete one starts", started == mod.startable());
      Sym.check("a refused start has no effect", started == m.isStarted());
      Sym.assume(started);
      cur = mod.init;
      if (mod.endsAtOnce[cur]) {
        Sym.check("an initial state that ends ends the machine", m.isEnded());
      }
    } else {
      cur = Sym.pick("current", 2);
      boolean in = true;
      try {
        m.startInState(Mk.st(Mk.fresh("A", "B")[cur]));
      } catch (IllegalStateException x) {
        in = false;
      }
      Sym.check("a state that was not configured is refused", in == mod.configured[cur]);
      Sym.assume(in);
    }
    Sym.assume(!mod.endsAtOnce[cur]);
    int e = Sym.pick("event", 2);
    int c = mod.cell[cur][e];
    m.fire(Mk.ev(Mk.fresh("e", "f")[e]));
    steps.run(2);
    int to = c >= 3 ? c - 3 : cur;
    boolean ends = c == END || c >= 3 && (!mod.configured[to] || mod.endsAtOnce[to]);
    Sym.check("the configured transition is made", ends ? m.isEnded()
        : !m.isEnded() && (to == 0 ? "A" : "B").equals(m.getCurrentState().getName()));
    Sym.check("an event that was not mapped is unmapped", flow.unmapped == (c == NONE ? 1 : 0) && flow.errors == 0);
    Sym.cover("a transition after a refused call", refusedOnce && c >= 3);
  }

  @Check(bounds = "every sequence of 4 calls over two states, two events and the reserved names; every cell probed by startInState and one event",
      covers = "a transition after a refused call")
  public static void short4() {
    sequence(4, true, false, false);
  }

  @Check(bounds = "every sequence of 4 calls over two states, two events and the reserved names; then start", covers = "a transition after a refused call")
  public static void start4() {
    sequence(4, true, true, false);
  }

  @Check(bounds = "a mapped event of the initial state, then every sequence of 4 calls over two states and two events; every cell probed", covers = "a transition after a refused call")
  public static void continued4() {
    sequence(4, false, false, true);
  }

  @Check(bounds = "a mapped event of the initial state, then every sequence of 4 calls over two states and two events; then start", covers = "a transition after a refused call")
  public static void continuedStart4() {
    sequence(4, false, true, true);
  }

  @Check(bounds = "every sequence of 7 calls over two states and two events; every cell probed", covers = "a transition after a refused call", quick = false)
  public static void long7() {
    sequence(7, false, false, false);
  }

  @Check(bounds = "every sequence of 7 calls over two states and two events; then start", covers = "a transition after a refused call", quick = false)
  public static void longStart7() {
    sequence(7, false, true, false);
  }

  static final String[] NAMES = {null, "", " ", "_", "_END", "END_", "_END__", "_end_", "END", " _END_", "_NOOP", "_noop_", "_Noop_",
      "_UNINITIALISED", "UNINITIALISED", "_uninitialised_", "_immediate", "immediate", "_IMMEDIATE_", "_immediate_ ", "_START_"};

  /** One call takes the given names; the rest of the configuration is ordinary. */
  static boolean accepted(GenericStateMachine<Object, Object> m, int where, String state, String event) {
    try {
      m.initialSate(Mk.st(where == 0 ? state : "A")).receives(Mk.ev(where == 3 ? event : "e"))
          .itTransitionsTo(Mk.st(where == 2 ? state : "B"));
      m.when(Mk.st(where == 1 ? state : "B")).receives(Mk.ev("e")).itDoesNotTransition();
      return true;
    } catch (IllegalStateException x) {
      return false;
    }
  }

  @Check(bounds = "21 names close to the reserved ones (null and empty included) as initial state, state, target and event", covers = {
      "odd state", "odd event"})
  public static void oddNames() {
    Steps steps = new Steps();
    Flow flow = new Flow();
    GenericStateMachine<Object, Object> m = Mk.machine(steps, flow);
    int where = Sym.split("where", 4);
    int k = Sym.split("name", NAMES.length);
    String name = Mk.fresh(NAMES)[k];
    Sym.check("a legal configuration call is accepted", accepted(m, where, name, name));
    m.start();
    Sym.check("a complete machine starts", m.isStarted());
    NamedState<Object, Object> init = Mk.st(where == 0 ? Mk.fresh(NAMES)[k] : "A");
    Sym.check("in its initial state", m.getCurrentState().equals(init));
    m.fire(Mk.ev(where == 3 ? Mk.fresh(NAMES)[k] : "e"));
    steps.run(1);
    // a target without behaviour is terminal
    Sym.check("the configured transition is made", where == 1 || where == 2 ? m.isEnded() : m.getCurrentState().equals(Mk.st("B")));
    Sym.cover("odd state", where == 2);
    Sym.cover("odd event", where == 3);
  }

  static void anyName(String name, int where) {
    GenericStateMachine<Object, Object> m = Mk.machine(new Steps(), new Flow());
    boolean reserved = where == 3 ? name.equals("_immediate_") : name.equals("_END_") || name.equals("_NOOP_")
        || name.equals("_UNINITIALISED_");
    boolean ok = true;
    try {
      if (where == 0) {
        m.initialSate(Mk.st(name));
      } else if (where == 1) {
        m.initialSate(Mk.st("A")).receives(Mk.ev("e")).itEnds();
        m.when(Mk.st(name));
      } else if (where == 2) {
        m.initialSate(Mk.st("A")).receives(Mk.ev("e")).itTransitionsTo(Mk.st(name));
      } else {
        m.initialSate(Mk.st("A")).receives(Mk.ev(name));
      }
    } catch (IllegalStateException x) {
      ok = false;
    }
    Sym.check("a name is refused exactly when it is reserved", ok == !reserved);
    Sym.cover("refused", !ok);
    Sym.cover("accepted", ok);
  }

  @Check(bounds = "any name of up to 6 UTF-16 units as initial state, state or target", covers = {"refused", "accepted"})
  public static void anyState() {
    anyName(Sym.string("name", 6), Sym.split("where", 3));
  }

  @Check(bounds = "any event name of up to 15 UTF-16 units", covers = {"refused", "accepted"})
  public static void anyEvent() {
    anyName(Sym.string("name", 15), 3);
  }

  @Check(bounds = "any name of up to 15 UTF-16 units as initial state, state or target", covers = {"refused", "accepted"}, quick = false)
  public static void anyLongState() {
    anyName(Sym.string("name", 15), Sym.split("where", 3));
  }
}
