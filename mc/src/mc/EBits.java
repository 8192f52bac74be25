package mc;

import io.netty.buffer.*;
import java.lang.invoke.*;
import java.nio.file.*;
import java.util.*;
import java.util.function.*;

/** C17 bitmap set semantics, C18 bitmap write/read. */
public final class EBits {
  static final String[] NAME = {"ByteBitMap", "ShortBitMap", "IntBitMap", "LongBitMap"};
  static final int[] N = {8, 16, 32, 64};
  final Run run; final Spec spec;
  EBits(Run run, Spec spec, Harvest hv) { this.run = run; this.spec = spec; }

  static final class W {
    final ClassLoader cl; final MethodHandle[] ctor = new MethodHandle[4]; final MethodHandle set, clear, get, write, read, count;
    W(Spec spec) {
      cl = Sut.fresh(spec).cl;
      try {
        MethodHandles.Lookup l = MethodHandles.publicLookup();
        Class<?> i = Class.forName("com.finproto.bitmap.BitMap", true, cl);
        for (int k = 0; k < 4; k++) ctor[k] = l.findConstructor(Class.forName("com.finproto.bitmap." + NAME[k], true, cl), MethodType.methodType(void.class)).asType(MethodType.methodType(Object.class));
        set = l.findVirtual(i, "set", MethodType.methodType(void.class, int.class)).asType(MethodType.methodType(void.class, Object.class, int.class));
        clear = l.findVirtual(i, "clear", MethodType.methodType(void.class, int.class)).asType(MethodType.methodType(void.class, Object.class, int.class));
        get = l.findVirtual(i, "get", MethodType.methodType(boolean.class, int.class)).asType(MethodType.methodType(boolean.class, Object.class, int.class));
        write = l.findVirtual(i, "write", MethodType.methodType(void.class, ByteBuf.class)).asType(MethodType.methodType(void.class, Object.class, ByteBuf.class));
        read = l.findVirtual(i, "read", MethodType.methodType(void.class, ByteBuf.class)).asType(MethodType.methodType(void.class, Object.class, ByteBuf.class));
        count = l.findVirtual(i, "bitCount", MethodType.methodType(int.class)).asType(MethodType.methodType(int.class, Object.class));
      } catch (ReflectiveOperationException e) { throw new Sut.Broken("bitmap classes unusable: " + e, e); }
    }
    Object make(int k) { try { return ctor[k].invokeExact(); } catch (Throwable t) { throw new Sut.Broken("constructor threw " + Sut.desc(t), t); } }
    void op(Object o, int p, boolean on) {
      try { if (on) set.invokeExact(o, p); else clear.invokeExact(o, p); } catch (Throwable t) { throw new Sut.Broken((on ? "set" : "clear") + "(" + p + ") threw " + Sut.desc(t), t); }
    }
    boolean get(Object o, int p) { try { return (boolean) get.invokeExact(o, p); } catch (Throwable t) { throw new Sut.Broken("get(" + p + ") threw " + Sut.desc(t), t); } }
    int count(Object o) { try { return (int) count.invokeExact(o); } catch (Throwable t) { throw new Sut.Broken("bitCount threw " + Sut.desc(t), t); } }
    /** Observed state: bit i of the result is position i. */
    long obs(Object o, int n) { long x = 0; for (int i = 0; i < n; i++) if (get(o, i)) x |= 1L << i; return x; }
    /** A bitmap brought to the state by sets (and, from full, clears). */
    Object in(int k, long s) {
      Object o = make(k);
      int n = N[k];
      if (Long.bitCount(s) * 2 <= n) { for (int i = 0; i < n; i++) if ((s >>> i & 1) != 0) op(o, i, true); }
      else { for (int i = 0; i < n; i++) op(o, i, true); for (int i = 0; i < n; i++) if ((s >>> i & 1) == 0) op(o, i, false); }
      return o;
    }
  }
  static long mask(int n) { return n == 64 ? -1L : (1L << n) - 1; }
  /** States of width n: all for 8 and 16; for 32 and 64 up to d positions set or up to d cleared, plus runs and patterns. */
  List<long[]> states(int k, int d) {
    int n = N[k];
    if (n <= 16) { long[] a = new long[1 << n]; for (int i = 0; i < a.length; i++) a[i] = i; return chunks(a); }
    LinkedHashSet<Long> s = new LinkedHashSet<>();
    combos(n, d, 0, 0, 0, s);
    for (Long x : new ArrayList<>(s)) s.add(~x & mask(n));
    for (int i = 0; i < n; i++) for (int j = i; j <= n; j++) { long r = (j == 64 ? -1L : (1L << j) - 1) & ~((1L << i) - 1); s.add(r); s.add(~r & mask(n)); }
    for (long p : new long[] {0x5555555555555555L, 0x7F7F7F7F7F7F7F7FL, 0x8080808080808080L, 0x00FF00FF00FF00FFL, 0x0F0F0F0F0F0F0F0FL, 0x0123456789ABCDEFL}) { s.add(p & mask(n)); s.add(~p & mask(n)); }
    if (d >= 1) { // every value of every byte, alone and on a full background
      for (int b = 0; b < n; b += 8) for (long v = 0; v < 256; v++) { s.add(v << b); s.add((~0L ^ v << b) & mask(n)); }
      for (int b = 0; b < n; b += 7) for (long v = 0; v < 128; v++) { s.add((v << b) & mask(n)); s.add((~0L ^ v << b) & mask(n)); }
    }
    long[] a = s.stream().mapToLong(x -> x).toArray();
    return chunks(a);
  }
  static void combos(int n, int d, int from, int used, long cur, Set<Long> o) {
    o.add(cur);
    if (used == d) return;
    for (int i = from; i < n; i++) combos(n, d, i + 1, used + 1, cur | 1L << i, o);
  }
  static List<long[]> chunks(long[] a) {
    List<long[]> l = new ArrayList<>();
    for (int i = 0; i < a.length; i += 512) l.add(Arrays.copyOfRange(a, i, Math.min(a.length, i + 512)));
    return l;
  }
  static String hx(long x) { return Long.toHexString(x); }

  // ---- C17 ----------------------------------------------------------------------------------------
  void c17() {
    int d = run.thorough ? 3 : 2;
    for (int k = 0; k < 4; k++) {
      final int fk = k; final int n = N[k];
      List<long[]> st = states(k, d);
      run.extra.put("states_" + NAME[k], st.stream().mapToLong(a -> a.length).sum() + (n <= 16 ? " (all)" : " (up to " + d + " set or cleared, all runs, bytes and septets)"));
      // every state x every operation x every observation
      run.parallel(st, () -> new W(spec), (w, a) -> {
        for (long s : a) for (int p = 0; p < n; p++) for (int on = 0; on < 2; on++) {
          final int fp = p, fon = on;
          Supplier<String> key = () -> NAME[fk] + "/state" + hx(s) + "/" + (fon == 1 ? "set" : "clear") + fp;
          if (!run.want(key)) continue;
          try {
            Object o = w.in(fk, s);
            w.op(o, p, on == 1);
            long e = on == 1 ? s | 1L << p : s & ~(1L << p);
            long got = w.obs(o, n);
            if (got != e) { run.violation(key.get(), "positions read " + hx(got) + ", expected " + hx(e) + " (bit i = position i)"); if (run.stop()) return; }
            if (on == 0 && p == 0 && w.count(o) != n) { run.violation(key.get(), "bitCount is " + w.count(o)); }
          } catch (Sut.Broken x) { run.violation(key.get(), Sut.desc(x)); if (run.stop()) return; }
          run.transitions.increment();
        }
        run.states.add(a.length); run.traces.add(a.length);
      });
      // every operation history to the depth bound, observed after every step
      int depth = run.thorough ? (n == 8 ? 5 : n == 16 ? 4 : 3) : n == 8 ? 4 : n == 16 ? 3 : n == 32 ? 3 : 2;
      run.extra.put("history_depth_" + NAME[k], depth);
      int ops = 2 * n + 1;
      run.parallel(ops, () -> new W(spec), (w, first) -> {
        int total = (int) Math.pow(ops, depth - 1);
        int[] seq = new int[depth];
        seq[0] = first;
        for (int c = 0; c < total; c++) {
          for (int y = c, i = 1; i < depth; i++) { seq[i] = y % ops; y /= ops; }
          Supplier<String> key = () -> NAME[fk] + "/hist" + Arrays.toString(seq).replace(" ", "");
          if (!run.want(key)) continue;
          try {
            Object o = w.make(fk);
            long e = 0;
            for (int op : seq) {
              if (op == 2 * n) { // serialise in between: must not disturb the set
                try { w.write.invokeExact(o, Unpooled.buffer(16)); } catch (Throwable t) { throw new Sut.Broken("write threw " + t, t); }
              } else { w.op(o, op >> 1, (op & 1) == 1); e = (op & 1) == 1 ? e | 1L << (op >> 1) : e & ~(1L << (op >> 1)); }
            }
            long got = w.obs(o, n);
            if (got != e) { run.violation(key.get(), "positions read " + hx(got) + ", expected " + hx(e)); if (run.stop()) return; }
          } catch (Sut.Broken x) { run.violation(key.get(), Sut.desc(x)); if (run.stop()) return; }
          run.transitions.add(depth); run.traces.increment();
        }
      });
    }
    // independence of bitmaps
    List<int[]> pairs = new ArrayList<>();
    for (int a = 0; a < 4; a++) for (int b = 0; b < 4; b++) pairs.add(new int[] {a, b});
    run.parallel(pairs, () -> new W(spec), (w, pr) -> {
      int[] pos = {0, 1, 7, 6, 3};
      int ops = pos.length * 4, depth = 4;
      for (int c = 0; c < Math.pow(ops, depth); c++) {
        final int fc = c;
        Supplier<String> key = () -> "pair/" + NAME[pr[0]] + "," + NAME[pr[1]] + "/" + fc;
        if (!run.want(key)) continue;
        try {
          Object[] o = {w.make(pr[0]), w.make(pr[1])};
          long[] e = new long[2];
          for (int y = c, i = 0; i < depth; i++) {
            int op = y % ops; y /= ops;
            int which = op & 1, on = op >> 1 & 1, p = pos[op >> 2];
            w.op(o[which], p, on == 1);
            e[which] = on == 1 ? e[which] | 1L << p : e[which] & ~(1L << p);
          }
          for (int i = 0; i < 2; i++) if (w.obs(o[i], N[pr[i]]) != e[i]) { run.violation(key.get(), "bitmap " + i + " reads " + hx(w.obs(o[i], N[pr[i]])) + ", expected " + hx(e[i])); if (run.stop()) return; }
        } catch (Sut.Broken x) { run.violation(key.get(), Sut.desc(x)); if (run.stop()) return; }
        run.transitions.add(depth); run.traces.increment();
      }
    });
  }

  // ---- C18 ----------------------------------------------------------------------------------------
  /** What the code is known to give back instead (KNOWN_FINDINGS.txt), or the state itself. Bit i = position i. */
  static long knownBad(int k, long s) {
    int n = N[k];
    long v = 0;
    for (int i = 0; i < n; i++) if ((s >>> i & 1) != 0) v |= 1L << (n - 1 - i);
    long r;
    if (k == 1) r = v & 0x7F7F;
    else if (k == 2) { r = 0; for (int i = 0; i < 4; i++) r |= ((int) v >> (24 - 7 * i) & 0x7FL) << (7 * i); r &= 0xFFFFFFFFL; }
    else if (k == 3) { r = 0; for (int i = 0; i < 8; i++) r |= (v >> (49 - 7 * i) & 0x7FL) << (7 * i); }
    else r = v;
    long o = 0;
    for (int i = 0; i < n; i++) if ((r >>> (n - 1 - i) & 1) != 0) o |= 1L << i;
    return o;
  }
  void c18() throws Exception {
    Set<String> known = new HashSet<>();
    for (String l : Files.readAllLines(run.verif.resolve("KNOWN_FINDINGS.txt")))
      if (l.startsWith("known: property=C18 ")) known.add(l.split(" ")[2]);
    int d = run.thorough ? 4 : 3;
    for (int k = 0; k < 4; k++) {
      final int fk = k; final int n = N[k];
      List<long[]> st = states(k, d);
      run.extra.put("states_" + NAME[k], st.stream().mapToLong(a -> a.length).sum() + (n <= 16 ? " (all)" : ""));
      boolean kn = known.contains(NAME[k]);
      java.util.concurrent.atomic.LongAdder lost = new java.util.concurrent.atomic.LongAdder();
      java.util.concurrent.atomic.AtomicLong firstLost = new java.util.concurrent.atomic.AtomicLong(Long.MAX_VALUE);
      run.parallel(st, () -> new W(spec), (w, a) -> {
        ByteBuf[] bufs = {Unpooled.buffer(64), Unpooled.directBuffer(64)};
        for (long want : a) for (int prior = 0; prior < (n == 16 || a.length == 512 && !run.thorough ? 3 : 5); prior++) for (int bk = 0; bk < 2; bk++) {
          if (bk == 1 && prior != 1) continue;
          final int fp = prior, fb = bk;
          Supplier<String> key = () -> NAME[fk] + "/state" + hx(want) + "/prior" + fp + "/buf" + fb;
          if (!run.want(key)) continue;
          try {
            Object o = w.in(fk, want);
            final long s = w.obs(o, n); // what the bitmap holds is C17's business
            ByteBuf b = bufs[bk].clear();
            int off = prior == 2 ? 3 : 0;
            b.writeZero(off).readerIndex(off);
            w.write.invokeExact(o, b);
            int end = b.writerIndex();
            if (b.readerIndex() != off) { run.violation(key.get(), "writing moved the reader index"); return; }
            if (w.obs(o, n) != s) { run.violation(key.get(), "writing changed the bitmap from " + hx(s) + " to " + hx(w.obs(o, n))); if (run.stop()) return; continue; }
            b.writeLong(0xFFFFFFFFFFFFFFFFL).writeLong(0);
            long pv = prior == 0 ? 0 : prior == 1 ? mask(n) : prior == 2 ? 0x5555555555555555L & mask(n) : prior == 3 ? s : ~s & mask(n);
            Object t = w.in(fk, pv);
            w.read.invokeExact(t, b);
            long got = w.obs(t, n);
            String e = null;
            if (b.readerIndex() != end) e = "reading consumed " + (b.readerIndex() - off) + " bytes, " + (end - off) + " were written";
            else if (got != s) {
              if (kn && got == knownBad(fk, s)) { lost.increment(); firstLost.accumulateAndGet(s, Math::min); }
              else e = "read back " + hx(got) + ", written " + hx(s) + " (bit i = position i)" + (kn ? ", and not the recorded finding's " + hx(knownBad(fk, s)) : "");
            } else if (w.count(t) != n) e = "bitCount " + w.count(t);
            // the two objects stay separate
            if (e == null) { w.op(t, (int) (s & 7), (s & 8) != 0); if (w.obs(o, n) != s) e = "the bitmap read shares state with the one written"; }
            if (e != null) { run.violation(key.get(), e); if (run.stop()) return; }
          } catch (Sut.Broken x) { run.violation(key.get(), Sut.desc(x)); if (run.stop()) return; }
          catch (Throwable x) { run.violation(key.get(), "threw " + Sut.desc(x)); if (run.stop()) return; }
          run.transitions.add(2); run.traces.increment();
        }
        run.states.add(a.length);
      });
      if (lost.sum() > 0) {
        run.known.put(NAME[k], NAME[k] + " write/read is not the identity: " + lost.sum() + " explored states came back changed exactly as recorded, e.g. positions 0x" + hx(firstLost.get()) + " came back as 0x" + hx(knownBad(k, firstLost.get())));
      }
    }
  }
}
