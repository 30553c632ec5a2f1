package verif.h;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.MultiConsumerStateMachineListener;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachineListener;
import verif.rt.Check;
import verif.rt.Sched;
import verif.rt.Sym;

/** C17: the fan-out listener notifies each registered listener exactly once. */
public class C17 {
  static final State<Object, Object> FROM = Mk.st("from");
  static final State<Object, Object> TO = Mk.st("to");

  @SuppressWarnings("unchecked")
  static final State<Object, Object>[] ENDS = new State[] {FROM, TO, Mk.st("_NOOP_"), Mk.st("_END_"), Mk.st("_UNINITIALISED_"),
      Mk.st(null), null};

  static final class L implements StateMachineListener<Object, Object> {
    int begins, ends;
    boolean wrong;
    StateEvent<Object> event;
    State<Object, Object> from = FROM, to = TO;
    Runnable then;

    private void see(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
      wrong |= f != from || e != event || t != to;
      if (then != null) {
        Runnable r = then;
        then = null;
        r.run();
      }
    }

    @Override
    public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
      begins++;
      see(f, e, t);
    }

    @Override
    public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
      ends++;
      see(f, e, t);
    }
  }

  static void sequential(int len, int n) {
    L[] l = new L[n];
    boolean[] in = new boolean[n];
    int[] begins = new int[n];
    int[] ends = new int[n];
    for (int i = 0; i < n; i++) {
      l[i] = new L();
    }
    boolean given0 = Sym.bool("first given");
    boolean twice = Sym.bool("given twice");
    boolean given1 = Sym.bool("second given");
    MultiConsumerStateMachineListener<Object, Object> mc = new MultiConsumerStateMachineListener<>(given0 ? l[0] : null,
        twice && given0 ? l[0] : null, given1 ? l[1] : null);
    in[0] = given0;
    in[1] = given1;
    for (int k = 0; k < len; k++) {
      int op = Sym.pick("op" + k, 4);
      int i = Sym.pick("i" + k, n);
      StateEvent<Object> e = Mk.ev("e" + k);
      State<Object, Object> from = ENDS[Sym.pick("from" + k, ENDS.length)];
      State<Object, Object> to = ENDS[Sym.pick("to" + k, ENDS.length)];
      for (int j = 0; j < n; j++) {
        l[j].event = e;
        l[j].from = from;
        l[j].to = to;
      }
      if (op == 0) {
        boolean r = mc.add(l[i]);
        Sym.check("add returns true exactly when the listener was absent", r == !in[i]);
        in[i] = true;
      } else if (op == 1) {
        boolean r = mc.remove(l[i]);
        Sym.check("remove returns true exactly when the listener was present", r == in[i]);
        in[i] = false;
      } else {
        if (op == 2) {
          mc.onStateChangeBegin(from, e, to);
        } else {
          mc.onStateChangeEnd(from, e, to);
        }
        for (int j = 0; j < n; j++) {
          if (in[j]) {
            if (op == 2) {
              begins[j]++;
            } else {
              ends[j]++;
            }
          }
        }
      }
    }
    for (int j = 0; j < n; j++) {
      Sym.check("each registered listener is notified exactly once, no other", l[j].begins == begins[j] && l[j].ends == ends[j]);
      Sym.check("notifications are forwarded unchanged", !l[j].wrong);
    }
    Sym.cover("removed and notified again", !in[0] && begins[0] == 1 && given0 && begins[1] >= 1);
  }

  @Check(bounds = "three listeners, two of them given at construction, or null, or twice; every sequence of 5 calls among add, remove, begin, end, between any of 7 states (equal, reserved, nameless and null ones included)", covers = "removed and notified again")
  public static void calls() {
    sequential(5, 3);
  }

  @Check(bounds = "150 listeners given at construction or added, one of them (0, 15, 63, 64, 99, 149) removed", covers = {"given", "added"}, steps = 40000)
  public static void many() {
    int n = 150;
    boolean given = Sym.split("given", 2) == 1;
    int gone = new int[] {0, 15, 63, 64, 99, 149}[Sym.split("gone", 6)];
    L[] l = new L[n];
    StateEvent<Object> e = Mk.ev("e");
    for (int i = 0; i < n; i++) {
      l[i] = new L();
      l[i].event = e;
    }
    MultiConsumerStateMachineListener<Object, Object> mc = given ? new MultiConsumerStateMachineListener<>(l)
        : new MultiConsumerStateMachineListener<>();
    for (int i = 0; i < n; i++) {
      Sym.check("add returns true exactly when the listener was absent", mc.add(l[i]) == !given);
    }
    mc.onStateChangeBegin(FROM, e, TO);
    Sym.check("remove returns true exactly when the listener was present", mc.remove(l[gone]));
    mc.onStateChangeEnd(FROM, e, TO);
    boolean right = true;
    for (int i = 0; i < n; i++) {
      right &= l[i].begins == 1 && l[i].ends == (i == gone ? 0 : 1) && !l[i].wrong;
    }
    Sym.check("each registered listener is notified exactly once, no other", right);
    Sym.cover("given", given);
    Sym.cover("added", !given);
  }

  @Check(bounds = "four listeners, every sequence of 6 calls", covers = "removed and notified again", quick = false)
  public static void longCalls() {
    sequential(6, 4);
  }

  /** Listeners that are equal although they are different objects. */
  static final class Same implements StateMachineListener<Object, Object> {
    final int group;
    int n;

    Same(int group) {
      this.group = group;
    }

    @Override
    public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
      n++;
    }

    @Override
    public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
      n++;
    }

    @Override
    public boolean equals(Object o) {
      return o instanceof Same && ((Same) o).group == group;
    }

    @Override
    public int hashCode() {
      return group;
    }
  }

  @Check(bounds = "three listeners, two of them equal but not identical, every sequence of 3 adds and removes followed by a notification", covers = "refused")
  public static void equalListeners() {
    Same[] l = {new Same(1), new Same(1), new Same(2)};
    MultiConsumerStateMachineListener<Object, Object> mc = new MultiConsumerStateMachineListener<>();
    int[] in = {-1, -1}; // the registered listener of each group
    boolean refused = false;
    for (int k = 0; k < 3; k++) {
      int i = Sym.pick("i" + k, 3);
      int g = i == 2 ? 1 : 0;
      if (Sym.bool("add" + k)) {
        Sym.check("add returns true exactly when the listener was absent", mc.add(l[i]) == (in[g] < 0));
        refused |= in[g] >= 0 && in[g] != i;
        in[g] = in[g] < 0 ? i : in[g];
      } else {
        Sym.check("remove returns true exactly when the listener was present", mc.remove(l[i]) == (in[g] >= 0));
        in[g] = -1;
      }
    }
    StateEvent<Object> e = Mk.ev("e");
    mc.onStateChangeBegin(FROM, e, TO);
    mc.onStateChangeEnd(FROM, e, TO);
    for (int i = 0; i < 3; i++) {
      Sym.check("each registered listener is notified exactly once, no other", l[i].n == (in[i == 2 ? 1 : 0] == i ? 2 : 0));
    }
    Sym.cover("refused", refused);
  }

  @Check(bounds = "a listener that adds or removes itself or another listener during a notification, three listeners", covers = {
      "removed during the notification", "added during the notification"})
  public static void fromInside() {
    L[] l = {new L(), new L(), new L()};
    StateEvent<Object> e = Mk.ev("e");
    boolean[] in = new boolean[3];
    MultiConsumerStateMachineListener<Object, Object> mc = new MultiConsumerStateMachineListener<>();
    for (int i = 0; i < 3; i++) {
      l[i].event = e;
      in[i] = Sym.bool("in" + i);
      if (in[i]) {
        mc.add(l[i]);
      }
    }
    int actor = Sym.pick("actor", 3);
    int target = Sym.pick("target", 3);
    boolean add = Sym.bool("add");
    boolean end = Sym.bool("end");
    boolean[] result = new boolean[1];
    l[actor].then = () -> result[0] = add ? mc.add(l[target]) : mc.remove(l[target]);
    if (end) {
      mc.onStateChangeEnd(FROM, e, TO);
    } else {
      mc.onStateChangeBegin(FROM, e, TO);
    }
    for (int i = 0; i < 3; i++) {
      int c = end ? l[i].ends : l[i].begins;
      boolean touched = in[actor] && i == target && i != actor;
      Sym.check("each registered listener is notified exactly once, no other",
          touched ? c <= 1 && (in[i] || add || c == 0) : c == (in[i] ? 1 : 0));
      Sym.check("notifications are forwarded unchanged", !l[i].wrong && (end ? l[i].begins : l[i].ends) == 0);
    }
    Sym.check("add and remove answer truthfully", !in[actor] || result[0] == (add != in[target]));
    int before = l[target].begins;
    mc.onStateChangeBegin(FROM, e, TO);
    boolean now = in[actor] ? add : in[target];
    Sym.check("each registered listener is notified exactly once, no other", l[target].begins == before + (now ? 1 : 0)
        || !in[actor] && actor == target);
    Sym.cover("removed during the notification", in[actor] && in[target] && !add && actor != target);
    Sym.cover("added during the notification", in[actor] && !in[target] && add);
  }

  @Check(bounds = "two threads adding, or removing, or one adding and one removing the same listener, present or not, while a third registered listener is notified; every interleaving", covers = {
      "both add", "add then remove"})
  public static void sameRace() {
    L a = new L();
    L z = new L();
    StateEvent<Object> e = Mk.ev("e");
    a.event = e;
    z.event = e;
    MultiConsumerStateMachineListener<Object, Object> mc = new MultiConsumerStateMachineListener<>(z);
    int k = Sym.split("ops", 3);
    boolean present = Sym.split("present", 2) == 1;
    if (present) {
      mc.add(a);
    }
    boolean[] r = new boolean[2];
    Sched.spawn(() -> r[0] = k == 1 ? mc.remove(a) : mc.add(a));
    Sched.spawn(() -> r[1] = k == 0 ? mc.add(a) : mc.remove(a));
    mc.onStateChangeBegin(FROM, e, TO);
    Sched.awaitQuiescence();
    int seen = a.begins;
    Sym.check("a listener registered throughout is notified exactly once", z.begins == 1 && z.ends == 0);
    Sym.check("a listener registered meanwhile is notified at most once", k == 2 || seen <= 1);
    mc.onStateChangeEnd(FROM, e, TO);
    boolean now = a.ends > 0;
    Sym.check("each registered listener is notified exactly once, no other", a.ends <= 1 && z.ends == 1);
    if (k == 0) {
      Sym.check("exactly one of two concurrent adds succeeds", !present ? r[0] != r[1] : !r[0] && !r[1]);
      Sym.check("added in the end", now);
    } else if (k == 1) {
      Sym.check("exactly one of two concurrent removes succeeds", present ? r[0] != r[1] : !r[0] && !r[1]);
      Sym.check("removed in the end", !now && (present || seen == 0));
    } else {
      Sym.check("add and remove answer consistently", (present ? r[1] && r[0] == now : r[0] && r[1] == !now));
    }
    Sym.check("notifications are forwarded unchanged", !a.wrong && !z.wrong);
    Sym.cover("both add", k == 0 && !present);
    Sym.cover("add then remove", k == 2 && !present && !now);
  }

  static void different(boolean twoNotifiers) {
    L stay = new L();
    L come = new L();
    L go = new L();
    StateEvent<Object> e = Mk.ev("e");
    stay.event = e;
    come.event = e;
    go.event = e;
    MultiConsumerStateMachineListener<Object, Object> mc = new MultiConsumerStateMachineListener<>(stay, go);
    boolean[] r = new boolean[2];
    Sched.spawn(() -> r[0] = mc.add(come));
    Sched.spawn(() -> r[1] = mc.remove(go));
    if (twoNotifiers) {
      Sched.spawn(() -> mc.onStateChangeEnd(FROM, e, TO));
    }
    Sched.point();
    boolean[] done = {r[0], r[1]};
    if (done[0]) {
      Sym.keep("added before");
    }
    if (done[1]) {
      Sym.keep("removed before");
    }
    mc.onStateChangeBegin(FROM, e, TO);
    Sym.check("a listener added before is notified, one removed before is not", (!done[0] || come.begins == 1)
        && (!done[1] || go.begins == 0));
    Sched.awaitQuiescence();
    Sym.check("add and remove answer truthfully", r[0] && r[1]);
    Sym.check("a listener registered throughout is notified exactly once", stay.begins == 1 && stay.ends == (twoNotifiers ? 1 : 0));
    Sym.check("a listener registered meanwhile is notified at most once", come.begins <= 1 && go.begins <= 1
        && come.ends <= 1 && go.ends <= 1);
    int b = come.begins;
    int g = go.begins;
    mc.onStateChangeBegin(FROM, e, TO);
    Sym.check("each registered listener is notified exactly once, no other", stay.begins == 2 && come.begins == b + 1
        && go.begins == g);
    Sym.check("notifications are forwarded unchanged", !stay.wrong && !come.wrong && !go.wrong);
    Sym.cover("in time", done[0] && done[1]);
    Sym.cover("too late", !done[0] && !done[1]);
  }

  @Check(bounds = "one thread adding a listener and one removing another during a notification; every interleaving", covers = {
      "in time", "too late"})
  public static void differentRace() {
    different(false);
  }

  @Check(bounds = "the same with two concurrent notifications", covers = {"in time", "too late"}, quick = false)
  public static void twoNotifiers() {
    different(true);
  }

  @Check(bounds = "as the listener of a machine making one transition, with three listeners registered or not", covers = "all three")
  public static void inMachine() {
    Steps steps = new Steps();
    Flow flow = new Flow();
    GenericStateMachine<Object, Object> m = Mk.machine(steps, flow);
    NamedState<Object, Object> a = Mk.st("A");
    NamedState<Object, Object> b = Mk.st("B");
    m.initialSate(a).receives(Mk.ev("e")).itTransitionsTo(b);
    m.when(b).receives(Mk.ev("e")).itEnds();
    m.start();
    int[][] n = new int[3][2];
    MultiConsumerStateMachineListener<Object, Object> mc = new MultiConsumerStateMachineListener<>();
    boolean[] in = new boolean[3];
    for (int i = 0; i < 3; i++) {
      in[i] = Sym.bool("in" + i);
      int[] c = n[i];
      StateMachineListener<Object, Object> l = new StateMachineListener<Object, Object>() {
        @Override
        public void onStateChangeBegin(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
          Sym.check("truthful", f.equals(a) && t.equals(b) && "e".equals(e.getName()) && c[1] == 0);
          c[0]++;
        }

        @Override
        public void onStateChangeEnd(State<Object, Object> f, StateEvent<Object> e, State<Object, Object> t) {
          Sym.check("truthful", f.equals(a) && t.equals(b) && "e".equals(e.getName()) && c[0] == 1);
          c[1]++;
        }
      };
      if (in[i]) {
        mc.add(l);
      }
    }
    m.setStateMachineListener(mc);
    m.fire(Mk.ev("e"));
    steps.run(2);
    for (int i = 0; i < 3; i++) {
      Sym.check("each registered listener is notified exactly once, no other", n[i][0] == (in[i] ? 1 : 0) && n[i][1] == n[i][0]);
    }
    Sym.check("the machine is not disturbed", m.getCurrentState().equals(b) && flow.total() == 0);
    Sym.cover("all three", in[0] && in[1] && in[2]);
  }
}
