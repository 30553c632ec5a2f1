package verif.h;

import com.webotech.statemachine.api.State;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachineListener;
import com.webotech.statemachine.service.AbstractAppContext;
import com.webotech.statemachine.service.AbstractAppService;
import com.webotech.statemachine.service.api.Subsystem;
import java.util.ArrayList;
import java.util.List;

/** A minimal app with recording subsystems. */
final class Apps {
  private Apps() {
  }

  static final class Ctx extends AbstractAppContext<Ctx> {
    Ctx() {
      super("verif");
    }
  }

  static final class App extends AbstractAppService<Ctx> implements StateMachineListener<Ctx, Void> {
    final Ctx ctx;
    final int n;
    /** Subsystem that fails to start or stop, -1 if none. */
    int failStart = -1, failStop = -1;
    /** Next subsystem expected to start or stop; starts counts completed starts. */
    int nextStart, nextStop;
    boolean wrongOrder, wrongContext, early;
    int starts, stops, attempts, stopAttempts;
    int transitions;
    String last;
    /** First start() has come back. */
    boolean returned, refused;
    boolean otherException;
    String stateAtReturn;
    /** Run by the subsystem with this index while it starts, stops. */
    Runnable duringStart, duringStop;
    int during = -1;
    /** The subsystems are different objects but equal. */
    boolean equal;
    /** Run at the begin (true) and end (false) notifications. */
    java.util.function.Consumer<Boolean> atChange;

    App(int n, boolean exitOnStop) {
      this(context(n), n, exitOnStop);
    }

    private App(Ctx c, int n, boolean exitOnStop) {
      super(c, exitOnStop);
      this.ctx = c;
      this.n = n;
      List<Subsystem<Ctx>> subs = new ArrayList<>();
      for (int i = 0; i < n; i++) {
        subs.add(new Sub(this, i));
      }
      c.withSubsystems(subs);
      setStateMachineListener(this);
    }

    private static Ctx context(int n) {
      return new Ctx();
    }

    /** Called by the client thread that blocks. */
    void first() {
      try {
        start();
        stateAtReturn = state();
      } catch (IllegalStateException e) {
        refused = true;
      } catch (RuntimeException e) {
        otherException = true;
      }
      returned = true;
    }

    boolean tryStart() {
      try {
        start();
        return true;
      } catch (IllegalStateException e) {
        return false;
      }
    }

    boolean tryStop() {
      try {
        stop();
        return true;
      } catch (IllegalStateException e) {
        return false;
      }
    }

    String state() {
      State<Ctx, Void> s = getLifecycleState();
      return s == null ? null : s.getName();
    }

    boolean ended() {
      return "_END_".equals(state());
    }

    @Override
    public void onStateChangeBegin(State<Ctx, Void> f, StateEvent<Void> e, State<Ctx, Void> t) {
      String to = t.getName();
      if (to.equals("STARTING")) {
        nextStart = 0;
      } else if (to.equals("STARTED")) {
        early |= nextStart != n;
      } else if (to.equals("STOPPING")) {
        nextStop = n - 1;
      } else if (to.equals("STOPPED") && f.getName().equals("STOPPING") && e.getName().equals("complete")) {
        early |= nextStop != -1;
      }
      if (atChange != null) {
        atChange.accept(true);
      }
    }

    @Override
    public void onStateChangeEnd(State<Ctx, Void> f, StateEvent<Void> e, State<Ctx, Void> t) {
      transitions++;
      last = t.getName();
      if (atChange != null) {
        atChange.accept(false);
      }
    }
  }

  static final class Sub implements Subsystem<Ctx> {
    final App app;
    final int i;

    Sub(App app, int i) {
      this.app = app;
      this.i = i;
    }

    @Override
    public boolean equals(Object o) {
      return o == this || app.equal && o instanceof Sub && ((Sub) o).app == app;
    }

    @Override
    public int hashCode() {
      return 7;
    }

    @Override
    public void start(Ctx c) {
      app.wrongContext |= c != app.ctx;
      app.wrongOrder |= i != app.nextStart;
      app.attempts++;
      if (i == app.during && app.duringStart != null) {
        app.duringStart.run();
      }
      if (i == app.failStart) {
        throw new IllegalArgumentException("start");
      }
      app.nextStart = i + 1;
      app.starts++;
    }

    @Override
    public void stop(Ctx c) {
      app.wrongContext |= c != app.ctx;
      app.wrongOrder |= i != app.nextStop;
      app.stopAttempts++;
      if (i == app.during && app.duringStop != null) {
        app.duringStop.run();
      }
      if (i == app.failStop) {
        throw new IllegalArgumentException("stop");
      }
      app.nextStop = i - 1;
      app.stops++;
    }
  }
}
