package verif.h;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateAction;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import com.webotech.statemachine.api.StateMachineListener;
import verif.rt.Sym;

/**
 * A machine over a symbolic table with observed actions and listeners. Before each event the expected callbacks are
 * written down from the documented semantics; every callback is compared with the next expected one.
 */
final class Rig {
  static final int BEGIN = 1, EXIT = 2, ENTRY = 3, END = 4;
  static final int NST = 3, END_STATE = 4, NOOP_STATE = 5, NO_STATE = 6;
  final String[] names = {"A", "B", "C", "D", "_END_", "_NOOP_", "_UNINITIALISED_"};
  @SuppressWarnings("unchecked")
  final NamedState<Object, Object>[] ss = new NamedState[] {Mk.st("A"), Mk.st("B"), Mk.st("C"), Mk.st("D")};
  final NamedStateEvent<Object>[] es;
  final int events;
  final Steps steps = new Steps();
  final Flow flow = new Flow();
  final GenericStateMachine<Object, Object> m;
  final int[][] t;
  final boolean endC;
  final boolean[] conf = {true, false, false, false};
  final boolean actions, listening;
  /** per state: entry and exit actions appended (numbers, in order). */
  final int[][] entry = new int[4][4];
  final int[][] exit = new int[4][4];
  final int[] entries = new int[4];
  final int[] exits = new int[4];

  // expected callbacks of the event being processed
  final int[] script = new int[16];
  int n, pos;
  boolean wrong;
  String evName;
  Object evPayload;
  int oldState, newState;
  int listener; // the listener installed, 0 for none
  int cur;
  boolean ended;
  int dead; // callbacks of a listener that was replaced

  Rig(int events, boolean actions, boolean listening) {
    this.events = events;
    this.actions = actions;
    this.listening = listening;
    es = C01.evs(events + 1);
    m = Mk.machine(steps, flow);
    t = new int[4][events + 1];
    endC = Sym.bool("C ends");
    for (int s = 0; s < 3; s++) {
      for (int e = 0; e < events; e++) {
        t[s][e] = Sym.pick("cell" + s + e, 7);
      }
    }
    Sym.assume(t[0][0] > 0);
    for (int s = 0; s < 3; s++) {
      if (s == 2 && endC) {
        m.when(ss[2]).itEnds();
        conf[2] = true;
      } else {
        for (int e = 0; e < events; e++) {
          int k = t[s][e];
          if (s == 0 && e == 0) {
            m.initialSate(ss[0]);
            outcome(m.receives(es[0]), k);
          } else if (k > 0) {
            outcome(m.when(ss[s]).receives(es[e]), k);
            conf[s] = true;
          }
        }
      }
    }
    if (listening) {
      listen(1);
    }
  }

  private void outcome(StateMachine<Object, Object> w, int k) {
    if (k == 1) {
      w.itEnds();
    } else if (k == 2) {
      w.itDoesNotTransition();
    } else {
      w.itTransitionsTo(ss[k - 3]);
    }
  }

  // ---------------------------------------------------------------- observers

  final class Act implements StateAction<Object, Object> {
    final int code, phase, state;

    Act(int phase, int state, int no) {
      this.phase = phase;
      this.state = state;
      code = phase * 64 + state * 8 + no;
    }

    @Override
    public void execute(StateEvent<Object> e, StateMachine<Object, Object> sm) {
      if (!actions) {
        return;
      }
      hit(code, e);
      Sym.check("actions get the machine", sm == m);
      if (phase == EXIT) {
        Sym.check("exit actions see the old state", is(m.getCurrentState(), oldState));
      } else {
        Sym.check("entry actions see the new state", is(m.getCurrentState(), newState));
      }
    }
  }

  final class Lis implements StateMachineListener<Object, Object> {
    final int no;

    Lis(int no) {
      this.no = no;
    }

    @Override
    public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> to) {
      on(BEGIN, f, e, to);
    }

    @Override
    public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> to) {
      on(END, f, e, to);
    }

    private void on(int k, State<Object, Object> f, StateEvent<Object> e, State<Object, Object> to) {
      if (no != listener) {
        dead++;
      }
      hit(k * 64 + index(f) * 8 + index(to), e);
    }
  }

  int index(State<Object, Object> s) {
    for (int i = 0; i < names.length; i++) {
      if (names[i].equals(s.getName())) {
        return i;
      }
    }
    return 7;
  }

  boolean is(State<Object, Object> s, int i) {
    return s != null && names[i].equals(s.getName());
  }

  private void hit(int code, StateEvent<Object> e) {
    if (pos >= n || script[pos] != code || e == null || !evName.equals(e.getName()) || e.getPayload() != evPayload) {
      wrong = true;
    }
    pos++;
  }

  private void expect(int code) {
    script[n++] = code;
  }

  /** Appends up to two actions for each phase of each configured state, in one call or several, with nulls. */
  @SuppressWarnings("unchecked")
  void actions(boolean rich) {
    for (int s = 0; s < 4; s++) {
      if (rich) {
        int a = Sym.pick("entryActions" + s, 4);
        int b = Sym.pick("exitActions" + s, 4);
        StateAction<Object, Object> n1 = new Act(ENTRY, s, 1);
        StateAction<Object, Object> n2 = new Act(ENTRY, s, 2);
        StateAction<Object, Object> x1 = new Act(EXIT, s, 1);
        StateAction<Object, Object> x2 = new Act(EXIT, s, 2);
        if (a == 1) {
          ss[s].appendEntryActions(n1);
          entries(s, 1, 0, 0, 0);
        } else if (a == 2) {
          ss[s].appendEntryActions(n2, null, n1, n1);
          entries(s, 2, 1, 1, 0);
        } else if (a == 3) {
          ss[s].appendEntryActions(n1, n2);
          ss[s].appendEntryActions(null, n2, n1);
          entries(s, 1, 2, 2, 1);
        }
        if (b == 1) {
          ss[s].appendExitActions(x1);
          exits(s, 1, 0, 0, 0);
        } else if (b == 2) {
          ss[s].appendExitActions(x2, null, x1, x1);
          exits(s, 2, 1, 1, 0);
        } else if (b == 3) {
          ss[s].appendExitActions(x1, x2);
          ss[s].appendExitActions(null, x2, x1);
          exits(s, 1, 2, 2, 1);
        }
      } else {
        ss[s].appendEntryActions(new Act(ENTRY, s, 1), new Act(ENTRY, s, 2));
        entries(s, 1, 2, 0, 0);
        ss[s].appendExitActions(new Act(EXIT, s, 1), new Act(EXIT, s, 2));
        exits(s, 1, 2, 0, 0);
      }
    }
  }

  private void entries(int s, int a, int b, int c, int d) {
    entry[s][0] = a;
    entry[s][1] = b;
    entry[s][2] = c;
    entry[s][3] = d;
    entries[s] = d > 0 ? 4 : c > 0 ? 3 : b > 0 ? 2 : 1;
  }

  private void exits(int s, int a, int b, int c, int d) {
    exit[s][0] = a;
    exit[s][1] = b;
    exit[s][2] = c;
    exit[s][3] = d;
    exits[s] = d > 0 ? 4 : c > 0 ? 3 : b > 0 ? 2 : 1;
  }

  void listen(int no) {
    listener = no;
    m.setStateMachineListener(no == 0 ? null : new Lis(no));
  }

  private void expectBracket(int k, int from, int to) {
    if (listening && listener > 0) {
      expect(k * 64 + from * 8 + to);
    }
  }

  private void expectExits(int s) {
    if (actions) {
      for (int i = 0; i < 4; i++) {
        if (i < exits[s]) {
          expect(EXIT * 64 + s * 8 + exit[s][i]);
        }
      }
    }
  }

  private void expectEntries(int s) {
    if (actions) {
      for (int i = 0; i < 4; i++) {
        if (i < entries[s]) {
          expect(ENTRY * 64 + s * 8 + entry[s][i]);
        }
      }
    }
  }

  private void reset(String name, Object payload) {
    n = 0;
    pos = 0;
    evName = name;
    evPayload = payload;
  }

  void verify() {
    Sym.check("callbacks exactly as specified", !wrong && pos == n);
    Sym.check("a replaced listener is not called", dead == 0);
    Sym.check("nothing unexpected", flow.errors == 0 && flow.before == 0);
  }

  // ---------------------------------------------------------------- driving

  /** start() or startInState(). */
  void start() {
    int s = Sym.pick("start", 3);
    if (Sym.bool("startIn")) {
      Sym.assume(conf[s] && !(s == 2 && endC));
      reset("", null);
      m.startInState(ss[s]);
      cur = s;
    } else {
      cur = 0;
      reset("_immediate_", null);
      expectBracket(BEGIN, NO_STATE, 0);
      expectEntries(0);
      newState = 0;
      oldState = 0;
      expectBracket(END, NO_STATE, 0);
      m.start();
    }
    verify();
  }

  /** Fires one event with or without payload and processes it. */
  void event(int i) {
    int e = Sym.pick("event" + i, events + 1);
    int k = t[cur][e];
    Object p = Sym.bool("payload" + i) ? new Object() : null;
    reset(es[e].getName(), p);
    oldState = cur;
    if (!ended && k > 0) {
      int to = k == 1 ? END_STATE : k == 2 ? NOOP_STATE : k - 3;
      newState = to;
      expectBracket(BEGIN, cur, to);
      if (k != 2) {
        expectExits(cur);
        if (k > 2) {
          expectEntries(k - 3);
        }
      }
      expectBracket(END, cur, to);
    }
    m.fire(Mk.ev(es[e].getName(), p));
    Sym.check("nothing runs in fire", pos == 0);
    steps.run(3);
    verify();
    if (!ended) {
      if (k == 1) {
        ended = true;
      } else if (k > 2) {
        cur = k - 3;
        ended = !conf[cur] || cur == 2 && endC;
      }
    }
  }
}
