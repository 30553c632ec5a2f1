package verif.rt;

import java.lang.annotation.ElementType;
import java.lang.annotation.Retention;
import java.lang.annotation.RetentionPolicy;
import java.lang.annotation.Target;

/** Marks a static no-argument harness method. */
@Retention(RetentionPolicy.RUNTIME)
@Target(ElementType.METHOD)
public @interface Check {
  /** Run in the quick tier (thorough runs everything). */
  boolean quick() default true;

  /** What is symbolic and within which bounds. */
  String bounds();

  /** Labels of Sym.cover that must be reachable. */
  String[] covers() default {};

  /** Bound on the steps of a schedule; exceeding it gives no answer. */
  int steps() default 400;

  /** Two threads about to access the same plain field of the library at the same time, one writing, is a violation. */
  boolean races() default false;

  /** Quick-tier harnesses that the thorough tier replaces by a deeper one. */
  boolean quickOnly() default false;
}
