package verif.h;

import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateAction;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import verif.rt.Check;
import verif.rt.Sym;

/** C16: states and events are equal exactly when their names are equal. */
public class C16 {


  /** A state class of the application's own. */
  static final class OwnState implements State<Object, Object> {
    final String name;

    OwnState(String name) {
      this.name = name;
    }

    @Override
    public void onEntry(StateEvent<Object> e, StateMachine<Object, Object> m) {
    }

    @Override
    public void onExit(StateEvent<Object> e, StateMachine<Object, Object> m) {
    }

    @Override
    public void appendEntryActions(StateAction<Object, Object>... actions) {
    }

    @Override
    public void appendExitActions(StateAction<Object, Object>... actions) {
    }

    @Override
    public String getName() {
      return name;
    }
  }

  /** An event class of the application's own. */
  static final class OwnEvent implements StateEvent<Object> {
    final String name;

    OwnEvent(String name) {
      this.name = name;
    }

    @Override
    public String getName() {
      return name;
    }

    @Override
    public Object getPayload() {
      return null;
    }

    @Override
    public void setPayload(Object p) {
    }
  }

  static boolean same(String x, String y) {
    return x == null ? y == null : x.equals(y);
  }

  @Check(bounds = "two states; each name null or any string of up to 4 UTF-16 units; actions appended or not",
      covers = {"states equal", "states differ", "states null name"})
  public static void states() {
    String n1 = Sym.bool("null1") ? null : Sym.string("n1", 4);
    String n2 = Sym.bool("null2") ? null : Sym.string("n2", 4);
    NamedState<Object, Object> a = new NamedState<>(n1);
    NamedState<Object, Object> b = new NamedState<>(n2);
    int ha = a.hashCode();
    if (Sym.bool("actions")) {
      a.appendEntryActions((e, m) -> {
      });
      b.appendExitActions((e, m) -> {
      }, null);
    }
    boolean eq = same(n1, n2);
    Sym.cover("states equal", eq && n1 != null && n1.length() == 4);
    Sym.cover("states differ", !eq && n1 != null && n2 != null && n1.length() == 2 && n2.length() == 2);
    Sym.cover("states null name", n1 == null && n2 != null);
    Sym.check("state equals iff names equal", a.equals(b) == eq);
    Sym.check("state equality symmetric", b.equals(a) == eq);
    Sym.check("state equality reflexive", a.equals(a) && b.equals(b));
    Sym.check("state not equal null", !a.equals(null));
    Sym.check("state not equal other type", !a.equals(n1) && !a.equals(new Object())
        && !a.equals(new NamedStateEvent<Object>(n1)) && !a.equals(new OwnState(n1)));
    Sym.check("equal states have equal hashes", !eq || a.hashCode() == b.hashCode());
    Sym.check("state hash stable", ha == a.hashCode());
    Sym.check("state keeps its name", a.getName() == n1 && b.getName() == n2);
  }

  @Check(bounds = "two events; each name null or any string of up to 4 UTF-16 units; payloads from a domain of 3, null included, and changed afterwards",
      covers = {"events equal", "events differ", "events null name", "events differ in payload only"})
  public static void events() {
    String n1 = Sym.bool("null1") ? null : Sym.string("n1", 4);
    String n2 = Sym.bool("null2") ? null : Sym.string("n2", 4);
    Object[] dom = {null, new Object(), "p"};
    NamedStateEvent<Object> a = new NamedStateEvent<>(n1);
    NamedStateEvent<Object> b = new NamedStateEvent<>(n2);
    int ha = a.hashCode();
    boolean before = a.equals(b);
    Sym.check("event without payload", a.getPayload() == null);
    Object pa = dom[Sym.pick("pa", 3)];
    Object pb = dom[Sym.pick("pb", 3)];
    a.setPayload(pa);
    b.setPayload(pb);
    boolean eq = same(n1, n2);
    Sym.cover("events equal", eq && n1 != null && n1.length() == 4);
    Sym.cover("events differ", !eq && n1 != null && n2 != null);
    Sym.cover("events null name", n1 == null && n2 == null);
    Sym.cover("events differ in payload only", eq && pa != pb);
    Sym.check("event equals iff names equal", a.equals(b) == eq && before == eq);
    Sym.check("event equality symmetric", b.equals(a) == eq);
    Sym.check("event equality reflexive", a.equals(a) && b.equals(b));
    Sym.check("event not equal null", !a.equals(null));
    Sym.check("event not equal other type", !a.equals(n1) && !a.equals(new Object())
        && !a.equals(new NamedState<Object, Object>(n1)) && !a.equals(new OwnEvent(n1)));
    Sym.check("equal events have equal hashes", !eq || a.hashCode() == b.hashCode());
    Sym.check("event hash stable", ha == a.hashCode());
    Sym.check("event keeps name and payload", a.getName() == n1 && a.getPayload() == pa);
    NamedStateEvent<Object> c = new NamedStateEvent<>(a);
    Sym.check("copy preserves name and payload", same(c.getName(), n1) && c.getPayload() == pa);
    Sym.check("copy is equal to the original", c.equals(a) && a.equals(c) && c.hashCode() == a.hashCode());
    a.setPayload(pb);
    Sym.check("copy is independent", c.getPayload() == pa && a.getPayload() == pb);
  }

  @Check(bounds = "three states and three events with any names of up to 2 UTF-16 units or null",
      covers = {"chain"})
  public static void transitive() {
    String n1 = Sym.bool("null1") ? null : Sym.string("n1", 2);
    String n2 = Sym.bool("null2") ? null : Sym.string("n2", 2);
    String n3 = Sym.bool("null3") ? null : Sym.string("n3", 2);
    NamedState<Object, Object> a = new NamedState<>(n1);
    NamedState<Object, Object> b = new NamedState<>(n2);
    NamedState<Object, Object> c = new NamedState<>(n3);
    Sym.cover("chain", a.equals(b) && b.equals(c) && n1 != null && n1.length() == 2);
    Sym.check("state equality transitive", !(a.equals(b) && b.equals(c)) || a.equals(c));
    NamedStateEvent<Object> x = new NamedStateEvent<>(n1);
    NamedStateEvent<Object> y = new NamedStateEvent<>(n2);
    NamedStateEvent<Object> z = new NamedStateEvent<>(n3);
    Sym.check("event equality transitive", !(x.equals(y) && y.equals(z)) || x.equals(z));
  }
}
