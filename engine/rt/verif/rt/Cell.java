package verif.rt;

/** Counter a thread can block on. */
public class Cell {
  public int v;
}
