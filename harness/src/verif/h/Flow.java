package verif.h;

import com.webotech.statemachine.UnexpectedFlowListener;
import com.webotech.statemachine.api.StateEvent;
import com.webotech.statemachine.api.StateMachine;
import java.util.function.BiConsumer;

/** Counts what the unexpected-flow listener and the unmapped-event handler are told; remembers the last call. */
final class Flow implements UnexpectedFlowListener<Object, Object>, BiConsumer<StateEvent<Object>, StateMachine<Object, Object>> {
  int before, after, errors, unmapped;
  StateEvent<Object> event;
  StateMachine<Object, Object> machine;
  Thread thread;
  Exception error;

  @Override
  public void onExceptionDuringEventProcessing(StateEvent<Object> e, StateMachine<Object, Object> m, Thread t,
      Exception x) {
    errors++;
    event = e;
    machine = m;
    thread = t;
    error = x;
  }

  @Override
  public void onEventAfterMachineEnd(StateEvent<Object> e, StateMachine<Object, Object> m) {
    after++;
    event = e;
    machine = m;
  }

  @Override
  public void onEventBeforeMachineStart(StateEvent<Object> e, StateMachine<Object, Object> m) {
    before++;
    event = e;
    machine = m;
  }

  @Override
  public void accept(StateEvent<Object> e, StateMachine<Object, Object> m) {
    unmapped++;
    event = e;
    machine = m;
  }

  int total() {
    return before + after + errors + unmapped;
  }
}
