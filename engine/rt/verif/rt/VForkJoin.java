package verif.rt;

/** Replaces java.util.concurrent.ForkJoinPool in the code under test (tasks given to execute and submit). */
public class VForkJoin extends VExecutor {
  private static VForkJoin common;

  public VForkJoin() {
    super(2, null);
  }

  public VForkJoin(int n) {
    super(n < 2 ? n : 2, null);
  }

  public static VForkJoin commonPool() {
    if (common == null) {
      common = new VForkJoin();
    }
    return common;
  }
}
