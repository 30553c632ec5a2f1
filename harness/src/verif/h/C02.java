package verif.h;

import verif.rt.Check;
import verif.rt.Sym;

/** C02: exit then entry actions, once each, in append order, with the right context. */
public class C02 {
  static void run(int events, int fires, boolean rich) {
    Rig r = new Rig(events, true, false);
    r.actions(rich);
    r.start();
    for (int i = 0; i < fires; i++) {
      int before = r.cur;
      boolean was = r.ended;
      r.event(i);
      if (i == fires - 1) {
        Sym.cover("actions of two states", !was && r.n > 3 && r.cur != before);
        Sym.cover("self transition", !was && r.n > 3 && r.cur == before);
        Sym.cover("no action for an unmapped event", !was && r.n == 0);
        Sym.cover("exit actions when the machine ends", !was && r.ended && r.n > 0);
      }
    }
  }

  @Check(bounds = "every table over 3 states x 1 event (+1 unmapped event, +1 unconfigured target; cells as in C01); each state with 0 to 4 entry and 0 to 4 exit actions appended by one or two calls, nulls and repeated actions included; start() or startInState; every history of 2 events with or without payload",
      covers = {"actions of two states", "self transition", "no action for an unmapped event",
          "exit actions when the machine ends"})
  public static void actions() {
    run(1, 2, true);
  }

  @Check(bounds = "every table over 3 states x 2 events, two entry and two exit actions per state, histories of 3 events",
      covers = {"actions of two states", "self transition", "no action for an unmapped event",
          "exit actions when the machine ends"}, quick = false)
  public static void longer() {
    run(2, 3, false);
  }
}
