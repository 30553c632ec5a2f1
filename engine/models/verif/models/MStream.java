package verif.models;

import java.util.ArrayList;
import java.util.Arrays;
import java.util.Comparator;
import java.util.Iterator;
import java.util.LinkedHashSet;
import java.util.List;
import java.util.Optional;
import java.util.Spliterator;
import java.util.Spliterators;
import java.util.function.BiConsumer;
import java.util.function.BiFunction;
import java.util.function.BinaryOperator;
import java.util.function.Consumer;
import java.util.function.Function;
import java.util.function.IntFunction;
import java.util.function.Predicate;
import java.util.function.Supplier;
import java.util.function.ToDoubleFunction;
import java.util.function.ToIntFunction;
import java.util.function.ToLongFunction;
import java.util.function.UnaryOperator;
import java.util.stream.Collector;
import java.util.stream.DoubleStream;
import java.util.stream.IntStream;
import java.util.stream.LongStream;
import java.util.stream.Stream;

/** Model of a lazy java.util.stream.Stream; of parallel streams only forEach runs in parallel (verif.rt.Par). */
public final class MStream<T> implements Stream<T> {
  private final Spliterator<T> sp;

  private boolean par;

  private MStream(Spliterator<T> sp, boolean par) {
    this.sp = sp;
    this.par = par;
  }

  public static <T> Stream<T> of(Spliterator<T> sp, boolean parallel) {
    return new MStream<>(sp, parallel);
  }

  static final class Box<T> implements Consumer<T> {
    T v;

    @Override
    public void accept(T t) {
      v = t;
    }
  }

  abstract static class Step<T, R> implements Spliterator<R> {
    final Spliterator<T> src;
    final Box<T> box = new Box<>();

    Step(Spliterator<T> src) {
      this.src = src;
    }

    @Override
    public Spliterator<R> trySplit() {
      return null;
    }

    @Override
    public long estimateSize() {
      return Long.MAX_VALUE;
    }

    @Override
    public int characteristics() {
      return ORDERED;
    }
  }

  static final class Filter<T> extends Step<T, T> {
    final Predicate<? super T> p;

    Filter(Spliterator<T> s, Predicate<? super T> p) {
      super(s);
      this.p = p;
    }

    @Override
    public boolean tryAdvance(Consumer<? super T> a) {
      while (src.tryAdvance(box)) {
        if (p.test(box.v)) {
          a.accept(box.v);
          return true;
        }
      }
      return false;
    }
  }

  static final class Mapped<T, R> extends Step<T, R> {
    final Function<? super T, ? extends R> f;

    Mapped(Spliterator<T> s, Function<? super T, ? extends R> f) {
      super(s);
      this.f = f;
    }

    @Override
    public boolean tryAdvance(Consumer<? super R> a) {
      if (!src.tryAdvance(box)) {
        return false;
      }
      a.accept(f.apply(box.v));
      return true;
    }
  }

  static final class Peek<T> extends Step<T, T> {
    final Consumer<? super T> c;

    Peek(Spliterator<T> s, Consumer<? super T> c) {
      super(s);
      this.c = c;
    }

    @Override
    public boolean tryAdvance(Consumer<? super T> a) {
      if (!src.tryAdvance(box)) {
        return false;
      }
      c.accept(box.v);
      a.accept(box.v);
      return true;
    }
  }

  static final class Cut<T> extends Step<T, T> {
    long skip, limit;
    final Predicate<? super T> take;
    final Predicate<? super T> drop;
    boolean done, dropped;

    Cut(Spliterator<T> s, long skip, long limit, Predicate<? super T> take, Predicate<? super T> drop) {
      super(s);
      this.skip = skip;
      this.limit = limit;
      this.take = take;
      this.drop = drop;
    }

    @Override
    public boolean tryAdvance(Consumer<? super T> a) {
      if (done || limit == 0) {
        return false;
      }
      while (skip > 0) {
        if (!src.tryAdvance(box)) {
          return false;
        }
        skip--;
      }
      while (src.tryAdvance(box)) {
        if (drop != null && !dropped && drop.test(box.v)) {
          continue;
        }
        dropped = true;
        if (take != null && !take.test(box.v)) {
          done = true;
          return false;
        }
        limit--;
        a.accept(box.v);
        return true;
      }
      return false;
    }
  }

  @Override
  public Stream<T> filter(Predicate<? super T> p) {
    return new MStream<>(new Filter<>(sp, p), par);
  }

  @SuppressWarnings({"unchecked", "rawtypes"})
  @Override
  public <R> Stream<R> map(Function<? super T, ? extends R> f) {
    return new MStream<R>(new Mapped(sp, f), par);
  }

  @Override
  public IntStream mapToInt(ToIntFunction<? super T> f) {
    List<T> l = list();
    int[] a = new int[l.size()];
    for (int i = 0; i < a.length; i++) {
      a[i] = f.applyAsInt(l.get(i));
    }
    return Arrays.stream(a);
  }

  @Override
  public LongStream mapToLong(ToLongFunction<? super T> f) {
    Fmt.unsupported("mapToLong");
    return null;
  }

  @Override
  public DoubleStream mapToDouble(ToDoubleFunction<? super T> f) {
    Fmt.unsupported("mapToDouble");
    return null;
  }

  @Override
  public <R> Stream<R> flatMap(Function<? super T, ? extends Stream<? extends R>> f) {
    ArrayList<R> r = new ArrayList<>();
    Box<T> b = new Box<>();
    while (sp.tryAdvance(b)) {
      Stream<? extends R> s = f.apply(b.v);
      if (s != null) {
        s.forEachOrdered(r::add);
      }
    }
    return again(r.stream());
  }

  @Override
  public IntStream flatMapToInt(Function<? super T, ? extends IntStream> f) {
    Fmt.unsupported("flatMapToInt");
    return null;
  }

  @Override
  public LongStream flatMapToLong(Function<? super T, ? extends LongStream> f) {
    Fmt.unsupported("flatMapToLong");
    return null;
  }

  @Override
  public DoubleStream flatMapToDouble(Function<? super T, ? extends DoubleStream> f) {
    Fmt.unsupported("flatMapToDouble");
    return null;
  }

  @Override
  public Stream<T> distinct() {
    return again(new LinkedHashSet<>(list()).stream());
  }

  @Override
  public Stream<T> sorted() {
    ArrayList<T> l = list();
    l.sort(null);
    return again(l.stream());
  }

  @Override
  public Stream<T> sorted(Comparator<? super T> c) {
    ArrayList<T> l = list();
    l.sort(c);
    return again(l.stream());
  }

  @Override
  public Stream<T> peek(Consumer<? super T> c) {
    return new MStream<>(new Peek<>(sp, c), par);
  }

  @Override
  public Stream<T> limit(long n) {
    return new MStream<>(new Cut<>(sp, 0, n, null, null), par);
  }

  @Override
  public Stream<T> skip(long n) {
    return new MStream<>(new Cut<>(sp, n, -1, null, null), par);
  }

  @Override
  public Stream<T> takeWhile(Predicate<? super T> p) {
    return new MStream<>(new Cut<>(sp, 0, -1, p, null), par);
  }

  @Override
  public Stream<T> dropWhile(Predicate<? super T> p) {
    return new MStream<>(new Cut<>(sp, 0, -1, null, p), par);
  }

  @Override
  public void forEach(Consumer<? super T> c) {
    while (sp.tryAdvance(c)) {
    }
  }

  @Override
  public void forEachOrdered(Consumer<? super T> c) {
    forEach(c);
  }

  private <R> Stream<R> again(Stream<R> s) {
    return par ? s.parallel() : s;
  }

  private ArrayList<T> list() {
    ArrayList<T> l = new ArrayList<>();
    Box<T> b = new Box<>();
    while (sp.tryAdvance(b)) {
      l.add(b.v);
    }
    return l;
  }

  @Override
  public Object[] toArray() {
    return list().toArray();
  }

  @Override
  public <A> A[] toArray(IntFunction<A[]> g) {
    List<T> l = list();
    A[] a = g.apply(l.size());
    return l.toArray(a);
  }

  @Override
  public T reduce(T id, BinaryOperator<T> f) {
    T r = id;
    Box<T> b = new Box<>();
    while (sp.tryAdvance(b)) {
      r = f.apply(r, b.v);
    }
    return r;
  }

  @Override
  public Optional<T> reduce(BinaryOperator<T> f) {
    Box<T> b = new Box<>();
    if (!sp.tryAdvance(b)) {
      return Optional.empty();
    }
    return Optional.of(reduce(b.v, f));
  }

  @Override
  public <U> U reduce(U id, BiFunction<U, ? super T, U> f, BinaryOperator<U> c) {
    U r = id;
    Box<T> b = new Box<>();
    while (sp.tryAdvance(b)) {
      r = f.apply(r, b.v);
    }
    return r;
  }

  @Override
  public <R> R collect(Supplier<R> s, BiConsumer<R, ? super T> a, BiConsumer<R, R> c) {
    R r = s.get();
    Box<T> b = new Box<>();
    while (sp.tryAdvance(b)) {
      a.accept(r, b.v);
    }
    return r;
  }

  @Override
  public <R, A> R collect(Collector<? super T, A, R> c) {
    A acc = c.supplier().get();
    BiConsumer<A, ? super T> f = c.accumulator();
    Box<T> b = new Box<>();
    while (sp.tryAdvance(b)) {
      f.accept(acc, b.v);
    }
    return c.finisher().apply(acc);
  }

  @Override
  public List<T> toList() {
    return java.util.Collections.unmodifiableList(list());
  }

  @Override
  public Optional<T> min(Comparator<? super T> c) {
    return reduce(BinaryOperator.minBy(c));
  }

  @Override
  public Optional<T> max(Comparator<? super T> c) {
    return reduce(BinaryOperator.maxBy(c));
  }

  @Override
  public long count() {
    long n = 0;
    Box<T> b = new Box<>();
    while (sp.tryAdvance(b)) {
      n++;
    }
    return n;
  }

  @Override
  public boolean anyMatch(Predicate<? super T> p) {
    Box<T> b = new Box<>();
    while (sp.tryAdvance(b)) {
      if (p.test(b.v)) {
        return true;
      }
    }
    return false;
  }

  @Override
  public boolean allMatch(Predicate<? super T> p) {
    Box<T> b = new Box<>();
    while (sp.tryAdvance(b)) {
      if (!p.test(b.v)) {
        return false;
      }
    }
    return true;
  }

  @Override
  public boolean noneMatch(Predicate<? super T> p) {
    return !anyMatch(p);
  }

  @Override
  public Optional<T> findFirst() {
    Box<T> b = new Box<>();
    return sp.tryAdvance(b) ? Optional.of(b.v) : Optional.empty();
  }

  @Override
  public Optional<T> findAny() {
    return findFirst();
  }

  @Override
  public Iterator<T> iterator() {
    return Spliterators.iterator(sp);
  }

  @Override
  public Spliterator<T> spliterator() {
    return sp;
  }

  @Override
  public boolean isParallel() {
    return par;
  }

  @Override
  public Stream<T> sequential() {
    par = false;
    return this;
  }

  @Override
  public Stream<T> parallel() {
    par = true;
    return this;
  }

  @Override
  public Stream<T> unordered() {
    return this;
  }

  @Override
  public Stream<T> onClose(Runnable r) {
    return this;
  }

  @Override
  public void close() {
  }
}
