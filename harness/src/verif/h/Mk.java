package verif.h;

import com.webotech.statemachine.GenericStateMachine;
import com.webotech.statemachine.NamedState;
import com.webotech.statemachine.NamedStateEvent;
import com.webotech.statemachine.strategy.EventProcessingStrategy;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory;
import com.webotech.statemachine.strategy.EventProcessingStrategyFactory.Config;

/** Short names for building machines through the public API. */
final class Mk {
  private Mk() {
  }

  static NamedState<Object, Object> st(String n) {
    return new NamedState<>(n);
  }

  static NamedStateEvent<Object> ev(String n) {
    return new NamedStateEvent<>(n);
  }

  static NamedStateEvent<Object> ev(String n, Object payload) {
    NamedStateEvent<Object> e = new NamedStateEvent<>(n);
    e.setPayload(payload);
    return e;
  }

  static Config<Object, Object> cfg() {
    return new Config<>();
  }

  static GenericStateMachine<Object, Object> machine(Config<Object, Object> c) {
    return machine(EventProcessingStrategyFactory.createDefaultStrategy(c));
  }

  static GenericStateMachine<Object, Object> dropMachine(Config<Object, Object> c) {
    return machine(EventProcessingStrategyFactory.createDropDuplicateStrategy(c));
  }

  static GenericStateMachine<Object, Object> machine(EventProcessingStrategy<Object, Object> s) {
    return new GenericStateMachine.Builder<Object, Object>().setEventProcessingStrategy(s).build();
  }

  /** Machine stepped by hand. */
  static GenericStateMachine<Object, Object> machine(Steps steps, Flow flow) {
    return machine(cfg().withExecutor(steps).withUnexpectedFlowListener(flow).withUnmappedEventHandler(flow));
  }

  /** Equal strings that are different objects. */
  static String[] fresh(String... names) {
    String[] r = new String[names.length];
    for (int i = 0; i < r.length; i++) {
      r[i] = names[i] == null ? null : new String(names[i]);
    }
    return r;
  }
}
