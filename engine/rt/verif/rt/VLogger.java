package verif.rt;

/** Replaces org.apache.logging.log4j.Logger in the code under test (generated). */
public interface VLogger {
  boolean isTraceEnabled();
  void trace(String m);
  void trace(String m, Throwable t);
  void trace(String m, Object... a);
  void trace(Object m);
  void trace(Object m, Throwable t);
  void trace(CharSequence m);
  void trace(String m, Object a0);
  void trace(String m, Object a0, Object a1);
  void trace(String m, Object a0, Object a1, Object a2);
  void trace(String m, Object a0, Object a1, Object a2, Object a3);
  void trace(String m, Object a0, Object a1, Object a2, Object a3, Object a4);
  void trace(String m, Object a0, Object a1, Object a2, Object a3, Object a4, Object a5);
  void trace(String m, Object a0, Object a1, Object a2, Object a3, Object a4, Object a5, Object a6);
  void trace(String m, Object a0, Object a1, Object a2, Object a3, Object a4, Object a5, Object a6, Object a7);
  void trace(String m, java.util.function.Supplier<?>... a);
  boolean isDebugEnabled();
  void debug(String m);
  void debug(String m, Throwable t);
  void debug(String m, Object... a);
  void debug(Object m);
  void debug(Object m, Throwable t);
  void debug(CharSequence m);
  void debug(String m, Object a0);
  void debug(String m, Object a0, Object a1);
  void debug(String m, Object a0, Object a1, Object a2);
  void debug(String m, Object a0, Object a1, Object a2, Object a3);
  void debug(String m, Object a0, Object a1, Object a2, Object a3, Object a4);
  void debug(String m, Object a0, Object a1, Object a2, Object a3, Object a4, Object a5);
  void debug(String m, Object a0, Object a1, Object a2, Object a3, Object a4, Object a5, Object a6);
  void debug(String m, Object a0, Object a1, Object a2, Object a3, Object a4, Object a5, Object a6, Object a7);
  void debug(String m, java.util.function.Supplier<?>... a);
  boolean isInfoEnabled();
  void info(String m);
  void info(String m, Throwable t);
  void info(String m, Object... a);
  void info(Object m);
  void info(Object m, Throwable t);
  void info(CharSequence m);
  void info(String m, Object a0);
  void info(String m, Object a0, Object a1);
  void info(String m, Object a0, Object a1, Object a2);
  void info(String m, Object a0, Object a1, Object a2, Object a3);
  void info(String m, Object a0, Object a1, Object a2, Object a3, Object a4);
  void info(String m, Object a0, Object a1, Object a2, Object a3, Object a4, Object a5);
  void info(String m, Object a0, Object a1, Object a2, Object a3, Object a4, Object a5, Object a6);
  void info(String m, Object a0, Object a1, Object a2, Object a3, Object a4, Object a5, Object a6, Object a7);
  void info(String m, java.util.function.Supplier<?>... a);
  boolean isWarnEnabled();
  void warn(String m);
  void warn(String m, Throwable t);
  void warn(String m, Object... a);
  void warn(Object m);
  void warn(Object m, Throwable t);
  void warn(CharSequence m);
  void warn(String m, Object a0);
  void warn(String m, Object a0, Object a1);
  void warn(String m, Object a0, Object a1, Object a2);
  void warn(String m, Object a0, Object a1, Object a2, Object a3);
  void warn(String m, Object a0, Object a1, Object a2, Object a3, Object a4);
  void warn(String m, Object a0, Object a1, Object a2, Object a3, Object a4, Object a5);
  void warn(String m, Object a0, Object a1, Object a2, Object a3, Object a4, Object a5, Object a6);
  void warn(String m, Object a0, Object a1, Object a2, Object a3, Object a4, Object a5, Object a6, Object a7);
  void warn(String m, java.util.function.Supplier<?>... a);
  boolean isErrorEnabled();
  void error(String m);
  void error(String m, Throwable t);
  void error(String m, Object... a);
  void error(Object m);
  void error(Object m, Throwable t);
  void error(CharSequence m);
  void error(String m, Object a0);
  void error(String m, Object a0, Object a1);
  void error(String m, Object a0, Object a1, Object a2);
  void error(String m, Object a0, Object a1, Object a2, Object a3);
  void error(String m, Object a0, Object a1, Object a2, Object a3, Object a4);
  void error(String m, Object a0, Object a1, Object a2, Object a3, Object a4, Object a5);
  void error(String m, Object a0, Object a1, Object a2, Object a3, Object a4, Object a5, Object a6);
  void error(String m, Object a0, Object a1, Object a2, Object a3, Object a4, Object a5, Object a6, Object a7);
  void error(String m, java.util.function.Supplier<?>... a);
  boolean isFatalEnabled();
  void fatal(String m);
  void fatal(String m, Throwable t);
  void fatal(String m, Object... a);
  void fatal(Object m);
  void fatal(Object m, Throwable t);
  void fatal(CharSequence m);
  void fatal(String m, Object a0);
  void fatal(String m, Object a0, Object a1);
  void fatal(String m, Object a0, Object a1, Object a2);
  void fatal(String m, Object a0, Object a1, Object a2, Object a3);
  void fatal(String m, Object a0, Object a1, Object a2, Object a3, Object a4);
  void fatal(String m, Object a0, Object a1, Object a2, Object a3, Object a4, Object a5);
  void fatal(String m, Object a0, Object a1, Object a2, Object a3, Object a4, Object a5, Object a6);
  void fatal(String m, Object a0, Object a1, Object a2, Object a3, Object a4, Object a5, Object a6, Object a7);
  void fatal(String m, java.util.function.Supplier<?>... a);
}
