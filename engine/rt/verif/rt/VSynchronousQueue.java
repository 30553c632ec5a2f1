package verif.rt;

/** Stands for java.util.concurrent.SynchronousQueue as the work queue of a thread pool; nothing else uses it. */
public class VSynchronousQueue<E> extends VBlockingQueue<E> {
  public VSynchronousQueue() {
    super(1);
  }

  public VSynchronousQueue(boolean fair) {
    super(1);
  }

  @Override
  public boolean offerLast(E e) {
    return false;
  }
}
