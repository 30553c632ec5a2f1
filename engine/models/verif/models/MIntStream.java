package verif.models;

import java.util.ArrayList;
import java.util.IntSummaryStatistics;
import java.util.List;
import java.util.OptionalDouble;
import java.util.OptionalInt;
import java.util.PrimitiveIterator;
import java.util.Spliterator;
import java.util.function.*;
import java.util.stream.DoubleStream;
import java.util.stream.IntStream;
import java.util.stream.LongStream;
import java.util.stream.Stream;

/** Model of a sequential, lazy IntStream. */
public final class MIntStream implements IntStream {
  private final Spliterator.OfInt sp;

  private MIntStream(Spliterator.OfInt sp) {
    this.sp = sp;
  }

  public static IntStream of(Spliterator.OfInt sp, boolean parallel) {
    return new MIntStream(sp);
  }

  static final class Box implements IntConsumer {
    int v;

    @Override
    public void accept(int t) {
      v = t;
    }
  }

  abstract static class Step implements Spliterator.OfInt {
    final Spliterator.OfInt src;
    final Box box = new Box();

    Step(Spliterator.OfInt s) {
      src = s;
    }

    @Override
    public Spliterator.OfInt trySplit() {
      return null;
    }

    @Override
    public long estimateSize() {
      return Long.MAX_VALUE;
    }

    @Override
    public int characteristics() {
      return ORDERED;
    }
  }

  static final class Filter extends Step {
    final IntPredicate p;

    Filter(Spliterator.OfInt s, IntPredicate p) {
      super(s);
      this.p = p;
    }

    @Override
    public boolean tryAdvance(IntConsumer a) {
      while (src.tryAdvance(box)) {
        if (p.test(box.v)) {
          a.accept(box.v);
          return true;
        }
      }
      return false;
    }
  }

  static final class Mapped extends Step {
    final IntUnaryOperator f;

    Mapped(Spliterator.OfInt s, IntUnaryOperator f) {
      super(s);
      this.f = f;
    }

    @Override
    public boolean tryAdvance(IntConsumer a) {
      if (!src.tryAdvance(box)) {
        return false;
      }
      a.accept(f.applyAsInt(box.v));
      return true;
    }
  }

  @Override
  public IntStream filter(IntPredicate p) {
    return new MIntStream(new Filter(sp, p));
  }

  @Override
  public IntStream map(IntUnaryOperator f) {
    return new MIntStream(new Mapped(sp, f));
  }

  @Override
  public <U> Stream<U> mapToObj(IntFunction<? extends U> f) {
    ArrayList<U> l = new ArrayList<>();
    Box b = new Box();
    while (sp.tryAdvance(b)) {
      l.add(f.apply(b.v));
    }
    return l.stream();
  }

  @Override
  public Stream<Integer> boxed() {
    return mapToObj(Integer::valueOf);
  }

  @Override
  public void forEach(IntConsumer c) {
    while (sp.tryAdvance(c)) {
    }
  }

  @Override
  public void forEachOrdered(IntConsumer c) {
    forEach(c);
  }

  @Override
  public int[] toArray() {
    List<Integer> l = new ArrayList<>();
    Box b = new Box();
    while (sp.tryAdvance(b)) {
      l.add(b.v);
    }
    int[] a = new int[l.size()];
    for (int i = 0; i < a.length; i++) {
      a[i] = l.get(i);
    }
    return a;
  }

  @Override
  public int reduce(int id, IntBinaryOperator f) {
    int r = id;
    Box b = new Box();
    while (sp.tryAdvance(b)) {
      r = f.applyAsInt(r, b.v);
    }
    return r;
  }

  @Override
  public OptionalInt reduce(IntBinaryOperator f) {
    Box b = new Box();
    if (!sp.tryAdvance(b)) {
      return OptionalInt.empty();
    }
    return OptionalInt.of(reduce(b.v, f));
  }

  @Override
  public int sum() {
    return reduce(0, Integer::sum);
  }

  @Override
  public OptionalInt min() {
    return reduce(Math::min);
  }

  @Override
  public OptionalInt max() {
    return reduce(Math::max);
  }

  @Override
  public long count() {
    long n = 0;
    Box b = new Box();
    while (sp.tryAdvance(b)) {
      n++;
    }
    return n;
  }

  @Override
  public boolean anyMatch(IntPredicate p) {
    Box b = new Box();
    while (sp.tryAdvance(b)) {
      if (p.test(b.v)) {
        return true;
      }
    }
    return false;
  }

  @Override
  public boolean allMatch(IntPredicate p) {
    return !anyMatch(p.negate());
  }

  @Override
  public boolean noneMatch(IntPredicate p) {
    return !anyMatch(p);
  }

  @Override
  public OptionalInt findFirst() {
    Box b = new Box();
    return sp.tryAdvance(b) ? OptionalInt.of(b.v) : OptionalInt.empty();
  }

  @Override
  public OptionalInt findAny() {
    return findFirst();
  }

  @Override
  public Spliterator.OfInt spliterator() {
    return sp;
  }

  @Override
  public boolean isParallel() {
    return false;
  }

  @Override
  public IntStream sequential() {
    return this;
  }

  @Override
  public IntStream parallel() {
    return this;
  }

  @Override
  public IntStream unordered() {
    return this;
  }

  @Override
  public IntStream onClose(Runnable r) {
    return this;
  }

  @Override
  public void close() {
  }

  @Override
  public LongStream mapToLong(IntToLongFunction f) {
    Fmt.unsupported("IntStream");
    return null;
  }

  @Override
  public DoubleStream mapToDouble(IntToDoubleFunction f) {
    Fmt.unsupported("IntStream");
    return null;
  }

  @Override
  public IntStream flatMap(IntFunction<? extends IntStream> f) {
    Fmt.unsupported("IntStream");
    return null;
  }

  @Override
  public IntStream distinct() {
    Fmt.unsupported("IntStream");
    return null;
  }

  @Override
  public IntStream sorted() {
    Fmt.unsupported("IntStream");
    return null;
  }

  @Override
  public IntStream peek(IntConsumer c) {
    Fmt.unsupported("IntStream");
    return null;
  }

  @Override
  public IntStream limit(long n) {
    Fmt.unsupported("IntStream");
    return null;
  }

  @Override
  public IntStream skip(long n) {
    Fmt.unsupported("IntStream");
    return null;
  }

  @Override
  public <R> R collect(Supplier<R> s, ObjIntConsumer<R> a, BiConsumer<R, R> c) {
    Fmt.unsupported("IntStream");
    return null;
  }

  @Override
  public OptionalDouble average() {
    Fmt.unsupported("IntStream");
    return null;
  }

  @Override
  public IntSummaryStatistics summaryStatistics() {
    Fmt.unsupported("IntStream");
    return null;
  }

  @Override
  public LongStream asLongStream() {
    Fmt.unsupported("IntStream");
    return null;
  }

  @Override
  public DoubleStream asDoubleStream() {
    Fmt.unsupported("IntStream");
    return null;
  }

  @Override
  public PrimitiveIterator.OfInt iterator() {
    Fmt.unsupported("IntStream");
    return null;
  }
}
