package java.lang;

/** Model: message, cause and suppressed exceptions; no stack trace. */
public class Throwable implements java.io.Serializable {
  private String message;
  private Throwable cause;
  private boolean hasCause;
  private Throwable[] suppressed;

  public Throwable() {
  }

  public Throwable(String message) {
    this.message = message;
  }

  public Throwable(String message, Throwable cause) {
    this.message = message;
    this.cause = cause;
    this.hasCause = true;
  }

  public Throwable(Throwable cause) {
    this.message = cause == null ? null : cause.toString();
    this.cause = cause;
    this.hasCause = true;
  }

  protected Throwable(String message, Throwable cause, boolean s, boolean w) {
    this(message, cause);
  }

  public String getMessage() {
    return message;
  }

  public String getLocalizedMessage() {
    return getMessage();
  }

  public Throwable getCause() {
    return cause;
  }

  public Throwable initCause(Throwable c) {
    if (hasCause) {
      throw new IllegalStateException("Can't overwrite cause");
    }
    cause = c;
    hasCause = true;
    return this;
  }

  public Throwable fillInStackTrace() {
    return this;
  }

  public StackTraceElement[] getStackTrace() {
    return new StackTraceElement[0];
  }

  public void setStackTrace(StackTraceElement[] s) {
  }

  public void printStackTrace() {
  }

  public void printStackTrace(java.io.PrintStream s) {
  }

  public void printStackTrace(java.io.PrintWriter s) {
    s.println(toString());
  }

  public final void addSuppressed(Throwable t) {
    int n = suppressed == null ? 0 : suppressed.length;
    Throwable[] b = new Throwable[n + 1];
    for (int i = 0; i < n; i++) {
      b[i] = suppressed[i];
    }
    b[n] = t;
    suppressed = b;
  }

  public final Throwable[] getSuppressed() {
    return suppressed == null ? new Throwable[0] : suppressed;
  }

  @Override
  public String toString() {
    String m = getLocalizedMessage();
    String n = getClass().getName();
    return m == null ? n : n.concat(": ").concat(m);
  }
}
