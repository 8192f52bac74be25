package mc;

import io.netty.buffer.*;
import java.util.*;
import java.util.function.*;

/** C06 checksum algorithms. */
public final class ESums {
  static final String[] ALGS = {"CRC16", "CRC32", "SSE_BIN", "SZSE_BIN"};
  final Run run; final Spec spec; final Harvest hv;
  ESums(Run run, Spec spec, Harvest hv) { this.run = run; this.spec = spec; this.hv = hv; }

  // the published definitions as register automata: start, step(register, byte), result
  static final int[] T16 = new int[256], T32 = new int[256];
  static {
    for (int i = 0; i < 256; i++) {
      int a = i, b = i;
      for (int k = 0; k < 8; k++) { a = (a & 1) != 0 ? (a >>> 1) ^ 0xA001 : a >>> 1; b = (b & 1) != 0 ? (b >>> 1) ^ 0xEDB88320 : b >>> 1; }
      T16[i] = a; T32[i] = b;
    }
  }
  static int start(int alg) { return alg == 0 ? 0xFFFF : alg == 1 ? -1 : 0; }
  static int step(int alg, int c, int b) {
    switch (alg) {
      case 0: return (c >>> 8) ^ T16[(c ^ b) & 0xFF];
      case 1: return (c >>> 8) ^ T32[(c ^ b) & 0xFF];
      default: return (c + (b & 0xFF)) & 0xFF;
    }
  }
  static int result(int alg, int c) { return alg == 1 ? ~c : c; }
  static int of(int alg, byte[] d, int off, int len) {
    int c = start(alg);
    for (int i = 0; i < len; i++) c = step(alg, c, d[off + i]);
    return result(alg, c);
  }

  static final class W {
    final Sut sut; final Object[] svc = new Object[4]; final java.lang.invoke.MethodHandle calc;
    W(Spec spec) {
      sut = Sut.fresh(spec);
      try {
        for (int i = 0; i < 4; i++) svc[i] = sut.sums().std(ALGS[i]);
        calc = java.lang.invoke.MethodHandles.publicLookup().unreflect(sut.sums().calc)
            .asType(java.lang.invoke.MethodType.methodType(Object.class, Object.class, Object.class));
      } catch (Exception e) { throw new Sut.Broken("checksum service unusable: " + e, e); }
    }
    Object calc(int alg, ByteBuf b) {
      try { return calc.invokeExact(svc[alg], (Object) b); }
      catch (Throwable t) { throw new Sut.Broken(ALGS[alg] + " calc threw " + Sut.desc(t), t); }
    }
  }
  boolean bad(Supplier<String> key, int alg, Object got, int exp) {
    if (got instanceof Integer && (Integer) got == exp) return false;
    run.violation(key.get(), ALGS[alg] + " returned " + Rec.show(got) + ", the published value is " + exp);
    return true;
  }

  void c06() {
    // the reference itself: check values of the published algorithms
    byte[] nine = "123456789".getBytes();
    if (of(0, nine, 0, 9) != 0x4B37 || of(1, nine, 0, 9) != 0xCBF43926 || of(2, nine, 0, 9) != 0xDD) throw new IllegalStateException("reference");
    shortStrings();
    positions();
    longOnes();
    kinds();
    verify();
    histories();
    run.assumptions.add("the published functions are the CRC catalogue entries CRC-16/MODBUS and CRC-32/ISO-HDLC and the two exchanges' byte sums");
  }

  /** Every string of up to 3 (thorough: 4) bytes. */
  void shortStrings() {
    int max = run.thorough ? 4 : 3;
    run.extra.put("all_strings_up_to_bytes", max);
    for (int alg = 0; alg < 4; alg++) {
      final int fa = alg;
      run.parallel(256, () -> new W(spec), (w, b0) -> {
        long n = 0;
        for (int len = b0 == 0 ? 0 : 1; len <= max; len++) {
          ByteBuf b = Unpooled.buffer(8, 8);
          b.writeZero(len);
          if (len > 0) b.setByte(0, b0);
          int inner = len <= 1 ? 1 : 1 << (8 * (len - 1));
          long total = len == 0 ? 1 : len == 1 ? 1 : (1L << (8 * (len - 1)));
          int c0 = len > 0 ? step(fa, start(fa), b0) : start(fa);
          if (len <= 1) {
            if (one(w, fa, b, result(fa, c0), len, b0, 0)) return;
            n++;
            continue;
          }
          for (int x = 0; x < (len == 2 ? 256 : len == 3 ? 65536 : 1 << 24); x++) {
            int c = c0;
            if (len == 2) { b.setByte(1, x); c = step(fa, c, x); }
            else if (len == 3) { b.setShort(1, x); c = step(fa, step(fa, c, x >> 8 & 255), x & 255); }
            else { b.setMedium(1, x); c = step(fa, step(fa, step(fa, c, x >> 16), x >> 8 & 255), x & 255); }
            Object got = w.calc(fa, b);
            if (!(got instanceof Integer) || (Integer) got != result(fa, c)) { if (one(w, fa, b, result(fa, c), len, b0, x)) return; }
            n++;
          }
        }
        run.states.add(n); run.transitions.add(n * max); run.traces.add(n);
      });
    }
  }
  boolean one(W w, int alg, ByteBuf b, int exp, int len, int b0, int x) {
    byte[] d = Bufs.content(b, 0, b.writerIndex());
    String k = ALGS[alg] + "/str/" + EValues.hex(d, 8);
    if (!run.want(k)) return false;
    return bad(() -> k, alg, w.calc(alg, b), exp);
  }

  /** Every length up to the bound, every position, every byte value, over three backgrounds. */
  void positions() {
    int max = run.thorough ? 520 : 300;
    run.extra.put("all_positions_up_to_length", max);
    int[] bg = {0x00, 0xFF, 0x5A};
    run.parallel(max + 1, () -> new W(spec), (w, ln) -> {
      int len = max - ln;
      byte[] d = new byte[len];
      ByteBuf b = Unpooled.wrappedBuffer(d);
      long n = 0;
      for (int alg = 0; alg < 4; alg++) for (int g : bg) {
        final int fa = alg;
        for (int i = 0; i < len; i++) d[i] = (byte) (g == 0x5A ? i * 37 + 11 : g);
        if (bad(() -> ALGS[fa] + "/len" + len + "/bg" + g, alg, w.calc(alg, b), of(alg, d, 0, len))) return;
        n++;
        // suffix automaton run: register before each position
        int[] pre = new int[len + 1];
        pre[0] = start(alg);
        for (int i = 0; i < len; i++) pre[i + 1] = step(alg, pre[i], d[i]);
        int stepv = run.thorough ? 1 : len <= 80 ? 1 : 5;
        for (int p = 0; p < len; p++) {
          byte old = d[p];
          for (int v = 0; v < 256; v += stepv) {
            d[p] = (byte) v;
            int c = step(alg, pre[p], v);
            for (int i = p + 1; i < len; i++) c = step(alg, c, d[i]);
            Object got = w.calc(alg, b);
            n++;
            if (!(got instanceof Integer) || (Integer) got != result(alg, c)) {
              final int fp = p, fv = v, fc = c;
              if (bad(() -> ALGS[fa] + "/len" + len + "/bg" + g + "@" + fp + "=" + fv, alg, got, result(alg, fc))) return;
            }
          }
          d[p] = old;
        }
      }
      run.states.add(n); run.transitions.add(n * len); run.traces.add(n);
    });
  }

  void longOnes() {
    TreeSet<Integer> lens = new TreeSet<>();
    for (int k = 8; k <= 20; k++) for (int d = -1; d <= 1; d++) lens.add((1 << k) + d);
    for (int n = 8421504; n <= 8421506; n++) lens.add(n); // where a signed 32-bit sum of 0xFF overflows
    lens.add(16843010);                                   // and where an unsigned one does
    for (int k = 21; k <= (run.thorough ? 28 : 26); k++) for (int d = -1; d <= 1; d++) lens.add((1 << k) + d);
    for (Set<Long> s : hv.ints.values()) for (long x : s) if (x > 0 && x <= 1 << 26 && (x > 400 || run.thorough)) { lens.add((int) x); lens.add((int) x + 1); }
    run.extra.put("long_lengths", lens.size());
    run.extra.put("longest_bytes", lens.last());
    List<int[]> work = new ArrayList<>();
    for (int len : lens.descendingSet()) for (int alg = 0; alg < 4; alg++) work.add(new int[] {len, alg});
    int par = Run.THREADS;
    if (run.thorough) Run.THREADS = 4;
    run.parallel(work, () -> new W(spec), (w, it) -> {
      int len = it[0], alg = it[1];
      byte[] d = new byte[len];
      for (int pat = 0; pat < (len > 1 << 22 ? 2 : 4); pat++) {
        for (int i = 0; i < len; i++) d[i] = (byte) (pat == 0 ? 0xFF : pat == 1 ? i * 0x9E3779B1 >>> 17 : pat == 2 ? 0x80 : 0);
        final int fp = pat;
        Supplier<String> k = () -> ALGS[alg] + "/long" + len + "/pat" + fp;
        if (!run.want(k)) continue;
        run.begin(k);
        bad(k, alg, w.calc(alg, Unpooled.wrappedBuffer(d)), of(alg, d, 0, len));
        run.states.increment(); run.transitions.add(len); run.traces.increment();
      }
      run.end();
    });
    Run.THREADS = par;
  }

  /** Buffer kinds x reader offsets x lengths x bytes beyond the writer index: exactly the readable bytes count. */
  void kinds() {
    LinkedHashMap<String, Bufs.Maker> kinds = Bufs.readable();
    run.extra.put("buffer_kinds", kinds.size() + " + composite split at every position");
    List<String> names = new ArrayList<>(kinds.keySet());
    names.add("composite2");
    run.parallel(names, () -> new W(spec), (w, kn) -> {
      for (int off : new int[] {0, 1, 2, 3, 4, 7, 8, 15, 255, 256}) for (int len = 0; len <= (run.thorough ? 130 : 40); len++) for (int tail : new int[] {0, 1, 9}) {
        byte[] all = new byte[off + len + tail];
        for (int i = 0; i < all.length; i++) all[i] = (byte) (i * 53 + 129);
        int splits = kn.equals("composite2") ? len : 0;
        for (int sp = 0; sp <= splits; sp++) {
          final int fs = sp, fl = len;
          for (int alg = 0; alg < 4; alg++) {
            final int fa = alg;
            Supplier<String> k = () -> ALGS[fa] + "/kind/" + kn + "/off" + off + "/len" + fl + "/tail" + tail + "/split" + fs;
            if (!run.want(k)) continue;
            ByteBuf b = kn.equals("composite2") ? Bufs.at(Bufs.pieces(all, off + sp), off, off + len) : kinds.get(kn).make(all, off, off + len);
            try {
              int rc = b.refCnt();
              b.markReaderIndex().markWriterIndex();
              if (bad(k, alg, w.calc(alg, b), of(alg, all, off, len))) return;
              Boolean ok = w.sut.sums().verify(w.svc[alg], b, of(alg, all, off, len));
              if (!ok) run.violation(k.get(), "verify rejects the computed value");
              if (b.readerIndex() != off || b.writerIndex() != off + len || b.refCnt() != rc) run.violation(k.get(), "buffer indices or reference count changed by the computation");
              if (!Arrays.equals(all, Bufs.content(b, 0, all.length))) run.violation(k.get(), "buffer content changed by the computation");
              b.setIndex(0, all.length); b.resetReaderIndex().resetWriterIndex();
              if (b.readerIndex() != off || b.writerIndex() != off + len) run.violation(k.get(), "buffer marks changed by the computation");
            } catch (Sut.Broken x) { run.violation(k.get(), Sut.desc(x)); }
            catch (Throwable t) { run.violation(k.get(), "threw " + Sut.desc(t)); }
            finally { Bufs.free(b); }
            run.states.increment(); run.transitions.add(3); run.traces.increment();
          }
        }
      }
    });
  }

  /** verify accepts exactly the computed value. */
  void verify() {
    run.parallel(4 * 16, () -> new W(spec), (w, it) -> {
      int alg = it / 16;
      for (int x = it % 16; x < 65536 + 256; x += 16 * (run.thorough ? 1 : 7)) {
        byte[] d = x < 256 ? new byte[] {(byte) x} : new byte[] {(byte) ((x - 256) >> 8), (byte) x};
        int v = of(alg, d, 0, d.length);
        TreeSet<Integer> wrong = new TreeSet<>();
        for (int i = 0; i < 32; i++) wrong.add(v ^ 1 << i);
        for (int q : new int[] {v + 1, v - 1, ~v, -v, 0, -1, v + 256, v | 0xFFFF0000, v << 8, v << 16, Integer.reverseBytes(v), (int) (short) v, (int) (byte) v, 0xFFFF, 0xFF}) wrong.add(q);
        wrong.remove(v);
        String k = ALGS[alg] + "/verify/" + EValues.hex(d, 4);
        if (!run.want(k)) continue;
        ByteBuf b = Unpooled.wrappedBuffer(d);
        try {
          if (!w.sut.sums().verify(w.svc[alg], b, v)) run.violation(k, "verify rejects the right value " + v);
          if (!w.sut.sums().verify(w.svc[alg], b, new Integer(v))) run.violation(k, "verify rejects the right value " + v);
          for (Integer q : wrong) if (w.sut.sums().verify(w.svc[alg], b, q)) { run.violation(k, "verify accepts " + q + ", the checksum is " + v); break; }
          if (w.sut.sums().verify(w.svc[alg], b, null)) run.violation(k, "verify accepts an absent checksum");
        } catch (Throwable t) { run.violation(k, "verify threw " + Sut.desc(t)); }
        run.states.increment(); run.transitions.add(wrong.size() + 3); run.traces.increment();
      }
    });
  }

  /** All sequences of service calls: the result never depends on what was computed before. */
  void histories() {
    byte[][] data = {{}, {1}, {(byte) 0xFF, (byte) 0x80}, "123456789".getBytes(), new byte[70], {(byte) 0xD5, 3, 7, (byte) 0x99, 44}};
    int ops = data.length * 2 + 2, depth = run.thorough ? 6 : 5;
    run.extra.put("call_sequences", "depth " + depth + " over " + ops + " calls, per algorithm, same and other service instances");
    List<int[]> work = new ArrayList<>();
    for (int alg = 0; alg < 4; alg++) for (int a = 0; a < ops; a++) work.add(new int[] {alg, a});
    run.parallel(work, () -> new W(spec), (w, it) -> {
      int alg = it[0];
      Object svc = w.svc[alg];
      Object other;
      try {
        other = w.sut.sums().std(ALGS[alg]);
        for (int i = 0; i < 4; i++) {
          String k = ALGS[i] + "/name";
          if (!ALGS[i].equals(w.sut.sums().alg(w.svc[i]))) { run.violation(k, "algorithm() is " + w.sut.sums().alg(w.svc[i])); return; }
        }
        int total = (int) Math.pow(ops, depth - 1);
        int[] seq = new int[depth];
        for (int c = 0; c < total; c++) {
          int y = c;
          seq[0] = it[1];
          for (int i = 1; i < depth; i++) { seq[i] = y % ops; y /= ops; }
          final int fc = c;
          Supplier<String> k = () -> ALGS[alg] + "/calls/" + it[1] + "," + fc;
          if (!run.want(k)) continue;
          for (int o : seq) {
            boolean bad = false;
            if (o < data.length * 2) {
              byte[] d = data[o / 2];
              Object got = w.sut.sums().calc(o % 2 == 0 ? svc : other, Unpooled.wrappedBuffer(d));
              bad = !(got instanceof Integer) || (Integer) got != of(alg, d, 0, d.length);
            } else {
              byte[] d = data[3];
              int v = of(alg, d, 0, d.length);
              bad = w.sut.sums().verify(svc, Unpooled.wrappedBuffer(d), o % 2 == 0 ? v : v ^ 1) != (o % 2 == 0);
            }
            if (bad) { run.violation(k.get(), "call " + o + " of sequence " + Arrays.toString(seq) + " gives a wrong result"); break; }
            run.transitions.increment();
          }
          run.states.increment(); run.traces.increment();
        }
      } catch (Throwable t) { run.violation(ALGS[alg] + "/calls", "threw " + Sut.desc(t)); }
    });
  }
}
