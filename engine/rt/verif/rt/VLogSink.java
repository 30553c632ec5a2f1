package verif.rt;

/** Records log calls when recording is on (generated). */
public final class VLogSink implements VLogger {
  private final String name;

  public VLogSink(String name) {
    this.name = name;
  }

  @Override
  public boolean isTraceEnabled() {
    return true;
  }

  @Override
  public void trace(String m) {
    Logs.add(name, 0, m, null, null);
  }

  @Override
  public void trace(String m, Throwable t) {
    Logs.add(name, 0, m, null, t);
  }

  @Override
  public void trace(String m, Object... a) {
    Logs.add(name, 0, m, a, null);
  }

  @Override
  public void trace(Object m) {
    Logs.add(name, 0, String.valueOf(m), null, null);
  }

  @Override
  public void trace(Object m, Throwable t) {
    Logs.add(name, 0, String.valueOf(m), null, t);
  }

  @Override
  public void trace(CharSequence m) {
    Logs.add(name, 0, String.valueOf(m), null, null);
  }

  @Override
  public void trace(String m, Object a0) {
    Logs.add(name, 0, m, new Object[] {a0}, null);
  }

  @Override
  public void trace(String m, Object a0, Object a1) {
    Logs.add(name, 0, m, new Object[] {a0, a1}, null);
  }

  @Override
  public void trace(String m, Object a0, Object a1, Object a2) {
    Logs.add(name, 0, m, new Object[] {a0, a1, a2}, null);
  }

  @Override
  public void trace(String m, Object a0, Object a1, Object a2, Object a3) {
    Logs.add(name, 0, m, new Object[] {a0, a1, a2, a3}, null);
  }

  @Override
  public void trace(String m, Object a0, Object a1, Object a2, Object a3, Object a4) {
    Logs.add(name, 0, m, new Object[] {a0, a1, a2, a3, a4}, null);
  }

  @Override
  public void trace(String m, Object a0, Object a1, Object a2, Object a3, Object a4, Object a5) {
    Logs.add(name, 0, m, new Object[] {a0, a1, a2, a3, a4, a5}, null);
  }

  @Override
  public void trace(String m, Object a0, Object a1, Object a2, Object a3, Object a4, Object a5, Object a6) {
    Logs.add(name, 0, m, new Object[] {a0, a1, a2, a3, a4, a5, a6}, null);
  }

  @Override
  public void trace(String m, Object a0, Object a1, Object a2, Object a3, Object a4, Object a5, Object a6, Object a7) {
    Logs.add(name, 0, m, new Object[] {a0, a1, a2, a3, a4, a5, a6, a7}, null);
  }

  @Override
  public void trace(String m, java.util.function.Supplier<?>... a) {
    Logs.add(name, 0, m, Logs.eval(a), null);
  }

  @Override
  public boolean isDebugEnabled() {
    return true;
  }

  @Override
  public void debug(String m) {
    Logs.add(name, 1, m, null, null);
  }

  @Override
  public void debug(String m, Throwable t) {
    Logs.add(name, 1, m, null, t);
  }

  @Override
  public void debug(String m, Object... a) {
    Logs.add(name, 1, m, a, null);
  }

  @Override
  public void debug(Object m) {
    Logs.add(name, 1, String.valueOf(m), null, null);
  }

  @Override
  public void debug(Object m, Throwable t) {
    Logs.add(name, 1, String.valueOf(m), null, t);
  }

  @Override
  public void debug(CharSequence m) {
    Logs.add(name, 1, String.valueOf(m), null, null);
  }

  @Override
  public void debug(String m, Object a0) {
    Logs.add(name, 1, m, new Object[] {a0}, null);
  }

  @Override
  public void debug(String m, Object a0, Object a1) {
    Logs.add(name, 1, m, new Object[] {a0, a1}, null);
  }

  @Override
  public void debug(String m, Object a0, Object a1, Object a2) {
    Logs.add(name, 1, m, new Object[] {a0, a1, a2}, null);
  }

  @Override
  public void debug(String m, Object a0, Object a1, Object a2, Object a3) {
    Logs.add(name, 1, m, new Object[] {a0, a1, a2, a3}, null);
  }

  @Override
  public void debug(String m, Object a0, Object a1, Object a2, Object a3, Object a4) {
    Logs.add(name, 1, m, new Object[] {a0, a1, a2, a3, a4}, null);
  }

  @Override
  public void debug(String m, Object a0, Object a1, Object a2, Object a3, Object a4, Object a5) {
    Logs.add(name, 1, m, new Object[] {a0, a1, a2, a3, a4, a5}, null);
  }

  @Override
  public void debug(String m, Object a0, Object a1, Object a2, Object a3, Object a4, Object a5, Object a6) {
    Logs.add(name, 1, m, new Object[] {a0, a1, a2, a3, a4, a5, a6}, null);
  }

  @Override
  public void debug(String m, Object a0, Object a1, Object a2, Object a3, Object a4, Object a5, Object a6, Object a7) {
    Logs.add(name, 1, m, new Object[] {a0, a1, a2, a3, a4, a5, a6, a7}, null);
  }

  @Override
  public void debug(String m, java.util.function.Supplier<?>... a) {
    Logs.add(name, 1, m, Logs.eval(a), null);
  }

  @Override
  public boolean isInfoEnabled() {
    return true;
  }

  @Override
  public void info(String m) {
    Logs.add(name, 2, m, null, null);
  }

  @Override
  public void info(String m, Throwable t) {
    Logs.add(name, 2, m, null, t);
  }

  @Override
  public void info(String m, Object... a) {
    Logs.add(name, 2, m, a, null);
  }

  @Override
  public void info(Object m) {
    Logs.add(name, 2, String.valueOf(m), null, null);
  }

  @Override
  public void info(Object m, Throwable t) {
    Logs.add(name, 2, String.valueOf(m), null, t);
  }

  @Override
  public void info(CharSequence m) {
    Logs.add(name, 2, String.valueOf(m), null, null);
  }

  @Override
  public void info(String m, Object a0) {
    Logs.add(name, 2, m, new Object[] {a0}, null);
  }

  @Override
  public void info(String m, Object a0, Object a1) {
    Logs.add(name, 2, m, new Object[] {a0, a1}, null);
  }

  @Override
  public void info(String m, Object a0, Object a1, Object a2) {
    Logs.add(name, 2, m, new Object[] {a0, a1, a2}, null);
  }

  @Override
  public void info(String m, Object a0, Object a1, Object a2, Object a3) {
    Logs.add(name, 2, m, new Object[] {a0, a1, a2, a3}, null);
  }

  @Override
  public void info(String m, Object a0, Object a1, Object a2, Object a3, Object a4) {
    Logs.add(name, 2, m, new Object[] {a0, a1, a2, a3, a4}, null);
  }

  @Override
  public void info(String m, Object a0, Object a1, Object a2, Object a3, Object a4, Object a5) {
    Logs.add(name, 2, m, new Object[] {a0, a1, a2, a3, a4, a5}, null);
  }

  @Override
  public void info(String m, Object a0, Object a1, Object a2, Object a3, Object a4, Object a5, Object a6) {
    Logs.add(name, 2, m, new Object[] {a0, a1, a2, a3, a4, a5, a6}, null);
  }

  @Override
  public void info(String m, Object a0, Object a1, Object a2, Object a3, Object a4, Object a5, Object a6, Object a7) {
    Logs.add(name, 2, m, new Object[] {a0, a1, a2, a3, a4, a5, a6, a7}, null);
  }

  @Override
  public void info(String m, java.util.function.Supplier<?>... a) {
    Logs.add(name, 2, m, Logs.eval(a), null);
  }

  @Override
  public boolean isWarnEnabled() {
    return true;
  }

  @Override
  public void warn(String m) {
    Logs.add(name, 3, m, null, null);
  }

  @Override
  public void warn(String m, Throwable t) {
    Logs.add(name, 3, m, null, t);
  }

  @Override
  public void warn(String m, Object... a) {
    Logs.add(name, 3, m, a, null);
  }

  @Override
  public void warn(Object m) {
    Logs.add(name, 3, String.valueOf(m), null, null);
  }

  @Override
  public void warn(Object m, Throwable t) {
    Logs.add(name, 3, String.valueOf(m), null, t);
  }

  @Override
  public void warn(CharSequence m) {
    Logs.add(name, 3, String.valueOf(m), null, null);
  }

  @Override
  public void warn(String m, Object a0) {
    Logs.add(name, 3, m, new Object[] {a0}, null);
  }

  @Override
  public void warn(String m, Object a0, Object a1) {
    Logs.add(name, 3, m, new Object[] {a0, a1}, null);
  }

  @Override
  public void warn(String m, Object a0, Object a1, Object a2) {
    Logs.add(name, 3, m, new Object[] {a0, a1, a2}, null);
  }

  @Override
  public void warn(String m, Object a0, Object a1, Object a2, Object a3) {
    Logs.add(name, 3, m, new Object[] {a0, a1, a2, a3}, null);
  }

  @Override
  public void warn(String m, Object a0, Object a1, Object a2, Object a3, Object a4) {
    Logs.add(name, 3, m, new Object[] {a0, a1, a2, a3, a4}, null);
  }

  @Override
  public void warn(String m, Object a0, Object a1, Object a2, Object a3, Object a4, Object a5) {
    Logs.add(name, 3, m, new Object[] {a0, a1, a2, a3, a4, a5}, null);
  }

  @Override
  public void warn(String m, Object a0, Object a1, Object a2, Object a3, Object a4, Object a5, Object a6) {
    Logs.add(name, 3, m, new Object[] {a0, a1, a2, a3, a4, a5, a6}, null);
  }

  @Override
  public void warn(String m, Object a0, Object a1, Object a2, Object a3, Object a4, Object a5, Object a6, Object a7) {
    Logs.add(name, 3, m, new Object[] {a0, a1, a2, a3, a4, a5, a6, a7}, null);
  }

  @Override
  public void warn(String m, java.util.function.Supplier<?>... a) {
    Logs.add(name, 3, m, Logs.eval(a), null);
  }

  @Override
  public boolean isErrorEnabled() {
    return true;
  }

  @Override
  public void error(String m) {
    Logs.add(name, 4, m, null, null);
  }

  @Override
  public void error(String m, Throwable t) {
    Logs.add(name, 4, m, null, t);
  }

  @Override
  public void error(String m, Object... a) {
    Logs.add(name, 4, m, a, null);
  }

  @Override
  public void error(Object m) {
    Logs.add(name, 4, String.valueOf(m), null, null);
  }

  @Override
  public void error(Object m, Throwable t) {
    Logs.add(name, 4, String.valueOf(m), null, t);
  }

  @Override
  public void error(CharSequence m) {
    Logs.add(name, 4, String.valueOf(m), null, null);
  }

  @Override
  public void error(String m, Object a0) {
    Logs.add(name, 4, m, new Object[] {a0}, null);
  }

  @Override
  public void error(String m, Object a0, Object a1) {
    Logs.add(name, 4, m, new Object[] {a0, a1}, null);
  }

  @Override
  public void error(String m, Object a0, Object a1, Object a2) {
    Logs.add(name, 4, m, new Object[] {a0, a1, a2}, null);
  }

  @Override
  public void error(String m, Object a0, Object a1, Object a2, Object a3) {
    Logs.add(name, 4, m, new Object[] {a0, a1, a2, a3}, null);
  }

  @Override
  public void error(String m, Object a0, Object a1, Object a2, Object a3, Object a4) {
    Logs.add(name, 4, m, new Object[] {a0, a1, a2, a3, a4}, null);
  }

  @Override
  public void error(String m, Object a0, Object a1, Object a2, Object a3, Object a4, Object a5) {
    Logs.add(name, 4, m, new Object[] {a0, a1, a2, a3, a4, a5}, null);
  }

  @Override
  public void error(String m, Object a0, Object a1, Object a2, Object a3, Object a4, Object a5, Object a6) {
    Logs.add(name, 4, m, new Object[] {a0, a1, a2, a3, a4, a5, a6}, null);
  }

  @Override
  public void error(String m, Object a0, Object a1, Object a2, Object a3, Object a4, Object a5, Object a6, Object a7) {
    Logs.add(name, 4, m, new Object[] {a0, a1, a2, a3, a4, a5, a6, a7}, null);
  }

  @Override
  public void error(String m, java.util.function.Supplier<?>... a) {
    Logs.add(name, 4, m, Logs.eval(a), null);
  }

  @Override
  public boolean isFatalEnabled() {
    return true;
  }

  @Override
  public void fatal(String m) {
    Logs.add(name, 5, m, null, null);
  }

  @Override
  public void fatal(String m, Throwable t) {
    Logs.add(name, 5, m, null, t);
  }

  @Override
  public void fatal(String m, Object... a) {
    Logs.add(name, 5, m, a, null);
  }

  @Override
  public void fatal(Object m) {
    Logs.add(name, 5, String.valueOf(m), null, null);
  }

  @Override
  public void fatal(Object m, Throwable t) {
    Logs.add(name, 5, String.valueOf(m), null, t);
  }

  @Override
  public void fatal(CharSequence m) {
    Logs.add(name, 5, String.valueOf(m), null, null);
  }

  @Override
  public void fatal(String m, Object a0) {
    Logs.add(name, 5, m, new Object[] {a0}, null);
  }

  @Override
  public void fatal(String m, Object a0, Object a1) {
    Logs.add(name, 5, m, new Object[] {a0, a1}, null);
  }

  @Override
  public void fatal(String m, Object a0, Object a1, Object a2) {
    Logs.add(name, 5, m, new Object[] {a0, a1, a2}, null);
  }

  @Override
  public void fatal(String m, Object a0, Object a1, Object a2, Object a3) {
    Logs.add(name, 5, m, new Object[] {a0, a1, a2, a3}, null);
  }

  @Override
  public void fatal(String m, Object a0, Object a1, Object a2, Object a3, Object a4) {
    Logs.add(name, 5, m, new Object[] {a0, a1, a2, a3, a4}, null);
  }

  @Override
  public void fatal(String m, Object a0, Object a1, Object a2, Object a3, Object a4, Object a5) {
    Logs.add(name, 5, m, new Object[] {a0, a1, a2, a3, a4, a5}, null);
  }

  @Override
  public void fatal(String m, Object a0, Object a1, Object a2, Object a3, Object a4, Object a5, Object a6) {
    Logs.add(name, 5, m, new Object[] {a0, a1, a2, a3, a4, a5, a6}, null);
  }

  @Override
  public void fatal(String m, Object a0, Object a1, Object a2, Object a3, Object a4, Object a5, Object a6, Object a7) {
    Logs.add(name, 5, m, new Object[] {a0, a1, a2, a3, a4, a5, a6, a7}, null);
  }

  @Override
  public void fatal(String m, java.util.function.Supplier<?>... a) {
    Logs.add(name, 5, m, Logs.eval(a), null);
  }

}
