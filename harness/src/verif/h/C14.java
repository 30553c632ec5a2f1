package verif.h;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.HandleExceptionAction;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import java.io.IOException;
import verif.rt.Check;
import verif.rt.Sym;

/** C14: the exception-handling action wraps faithfully. */
public class C14 {
  static Throwable make(int k) {
    switch (k) {
      case 1:
        return new IllegalStateException();
      case 2:
        return new IOException();
      case 3:
        return new NullPointerException();
      case 4:
        return new InterruptedException();
      case 5:
        return new Exception();
      case 6:
        return new RuntimeException(new IOException());
      case 7:
        return new StackOverflowError();
      case 8:
        return new AssertionError();
      case 9:
        return new Throwable();
      case 0:
        return null;
      default:
        return others()[k - 10];
    }
  }

  /** More exceptions, none with a message. */
  static Exception[] others() {
    return new Exception[] {new java.util.concurrent.CancellationException(), new java.util.concurrent.TimeoutException(),
        new ClassCastException(), new SecurityException(), new UnsupportedOperationException(), new IllegalArgumentException(),
        new java.io.UncheckedIOException(new IOException()), new CloneNotSupportedException(), new ArithmeticException(),
        new IndexOutOfBoundsException(), new java.util.ConcurrentModificationException(),
        new java.util.NoSuchElementException(), new java.util.concurrent.RejectedExecutionException(),
        new java.util.concurrent.ExecutionException(new IOException()), new RuntimeException(), new C13.Checked(),
        new java.io.EOFException(), new java.util.concurrent.CompletionException(new IOException()),
        new ReflectiveOperationException(), new IllegalMonitorStateException()};
  }

  static final int KINDS = 30;

  static void raise(Throwable t) {
    if (t != null) {
      C13.<RuntimeException>sneak(t);
    }
  }

  @Check(bounds = "every pair of outcomes of action and handler among normal completion and 29 kinds of throwable; event and machine present or null; twice in a row", covers = {
      "checked exception handled", "error propagates", "handler throws"})
  public static void outcomes() {
    int k = Sym.pick("action throws", KINDS);
    int h = Sym.pick("handler throws", KINDS);
    Throwable t = make(k);
    Throwable u = make(h);
    GenericStateMachine<Object, Object> m = Sym.bool("machine") ? Mk.machine(new Steps(), new Flow()) : null;
    StateEvent<Object> e = Sym.bool("event") ? Mk.ev("e", "p") : null;
    int[] calls = new int[2];
    boolean[] wrong = new boolean[1];
    HandleExceptionAction<Object, Object> w = new HandleExceptionAction<>((ev, sm) -> {
      calls[0]++;
      wrong[0] |= ev != e || sm != m || calls[1] != calls[0] - 1 && t instanceof Exception;
      raise(t);
    }, (ev, sm, x) -> {
      calls[1]++;
      wrong[0] |= ev != e || sm != m || x != t;
      raise(u);
    });
    boolean exception = k >= 1 && k <= 6 || k >= 10;
    for (int i = 1; i <= 2; i++) {
      Throwable out = null;
      try {
        w.execute(e, m);
      } catch (Throwable x) {
        out = x;
      }
      Sym.check("the action runs exactly once", calls[0] == i);
      Sym.check("the handler gets every exception exactly once and nothing else", calls[1] == (exception ? i : 0));
      Sym.check("same event, machine and exception", !wrong[0]);
      Sym.check("errors and what the handler throws propagate unchanged, nothing else does", out == (exception ? u : t));
    }
    Sym.cover("checked exception handled", k == 2 && h == 0);
    Sym.cover("error propagates", k == 7);
    Sym.cover("handler throws", k == 1 && h == 5);
  }

  @Check(bounds = "a wrapped entry or exit action inside a machine, throwing or not, followed by another action", covers = "handled in a transition")
  public static void inMachine() {
    Steps steps = new Steps();
    Flow flow = new Flow();
    GenericStateMachine<Object, Object> m = Mk.machine(steps, flow);
    NamedState<Object, Object> a = Mk.st("A");
    NamedState<Object, Object> b = Mk.st("B");
    int k = Sym.pick("throws", 7);
    boolean exit = Sym.bool("exit");
    int[] n = new int[3];
    Throwable t = make(k);
    HandleExceptionAction<Object, Object> w = new HandleExceptionAction<>((e, sm) -> {
      n[0]++;
      raise(t);
    }, (e, sm, x) -> {
      n[1]++;
      Sym.check("same event, machine and exception", e.getName().equals("e") && "p".equals(e.getPayload()) && sm == m && x == t);
    });
    if (exit) {
      a.appendExitActions(w, (e, sm) -> n[2]++);
    } else {
      b.appendEntryActions(w, (e, sm) -> n[2]++);
    }
    m.initialSate(a).receives(Mk.ev("e")).itTransitionsTo(b);
    m.when(b).receives(Mk.ev("f")).itEnds();
    m.start();
    m.fire(Mk.ev("e", "p"));
    steps.run(2);
    Sym.check("the action runs exactly once", n[0] == 1);
    Sym.check("the handler gets every exception exactly once and nothing else", n[1] == (k > 0 ? 1 : 0));
    Sym.check("the transition goes on", n[2] == 1 && flow.total() == 0 && m.getCurrentState().equals(b));
    Sym.cover("handled in a transition", k == 4 && exit);
  }
}
