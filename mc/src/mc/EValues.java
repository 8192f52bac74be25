package mc;

import io.netty.buffer.*;
import java.util.*;
import java.util.function.*;
import mc.Spec.*;

/** C01 round trip, C02 encoding against the layout, C03 decoding against the layout, C19 sizes. */
public final class EValues {
  final Run run; final Spec spec; final Gen gen;
  EValues(Run run, Spec spec, Harvest hv) { this.run = run; this.spec = spec; gen = new Gen(spec, hv, run.thorough); }

  static final class W {
    final Sut sut; final ByteBuf buf = Unpooled.buffer(4096); final byte[] garbage = new byte[16];
    long t, v;
    W(Sut s) { sut = s; Arrays.fill(garbage, (byte) 0xA5); }
  }
  void flush(W w) { run.transitions.add(w.t); run.traces.add(w.v); w.t = w.v = 0; }

  interface Check { String check(W w, Rec r); }

  void values(boolean disc, boolean comp, Check c) {
    Cases cs = new Cases(run, gen, disc, comp);
    List<Cases.Unit> us = cs.units();
    run.extra.put("base_values", us.size());
    run.extra.put("messages", spec.msgs.size());
    run.parallel(us, () -> new W(Sut.fresh(spec)), (w, u) -> {
      cs.visit(u, (r, key) -> {
        if (!run.want(key)) return;
        run.begin(key);
        one(w, r, key, c);
      });
      run.end();
      run.sample(u.b.id + " " + u.b.r);
      flush(w);
    });
  }
  void one(W w, Rec r, Supplier<String> key, Check c) {
    String e;
    try { e = c.check(w, r); }
    catch (Sut.Broken x) { e = Sut.desc(x); }
    catch (StackOverflowError | OutOfMemoryError x) { e = "error " + x; }
    if (e != null) run.violation(key.get(), e + " | value " + r);
  }

  static byte[] take(ByteBuf b) { byte[] x = new byte[b.writerIndex()]; b.getBytes(0, x); return x; }
  static String hex(byte[] b, int max) {
    StringBuilder s = new StringBuilder();
    for (int i = 0; i < Math.min(b.length, max); i++) s.append(String.format("%02x", b[i]));
    return s + (b.length > max ? "..(" + b.length + ")" : "");
  }
  static String bytesDiff(byte[] exp, byte[] got) {
    if (Arrays.equals(exp, got)) return null;
    int i = Arrays.mismatch(exp, got);
    int a = Math.max(0, i - 4);
    return "bytes differ at offset " + i + " (length " + exp.length + " expected, " + got.length + " written): expected .." + hex(Arrays.copyOfRange(exp, Math.min(a, exp.length), exp.length), 24) + " got .." + hex(Arrays.copyOfRange(got, Math.min(a, got.length), got.length), 24);
  }

  // ---- C01 ------------------------------------------------------------------------------------
  String roundTrip(W w, Rec r) {
    if (!Ref.fits(r)) return null;
    Object o = w.sut.toObj(r);
    ByteBuf b = w.buf.clear();
    w.sut.encode(o, b);
    run.state(Run.fp(r.m.cls.hashCode(), b.array(), b.arrayOffset(), b.writerIndex()));
    Rec exp = Ref.canon(r);
    computed(w.sut, o, exp);
    Object p = w.sut.mc(r.m).fresh();
    w.sut.decode(p, b);
    w.t += 2;
    if (b.readableBytes() != 0) return "decode left " + b.readableBytes() + " of the " + b.writerIndex() + " encoded bytes unread";
    Rec got = w.sut.fromObj(p);
    w.v++;
    String d = Rec.diff(exp, got, r.m.simple);
    if (d != null) return "round trip lost a value: " + d;
    Object q = w.sut.toObj(exp);
    if (!q.equals(p) || !p.equals(q)) return "decoded message has equal fields but is not equal to the original";
    return null;
  }
  /** Copies the computed (length, checksum) fields of the encoded object into the expected value. */
  static void computed(Sut sut, Object o, Rec exp) {
    for (Field f : exp.m.fields) {
      if (f.t.k == K.LEN || f.t.k == K.SUM) exp.v[f.idx] = sut.mc(exp.m).get(o, f.idx);
      else if (f.t.k == K.UNION && exp.v[f.idx] != null) {
        Object body = sut.mc(exp.m).get(o, f.idx);
        if (body != null && ((Rec) exp.v[f.idx]).m == sut.mcOf(body.getClass()).m) computed(sut, body, (Rec) exp.v[f.idx]);
      }
    }
  }
  void c01() { values(false, true, this::roundTrip); }

  // ---- C02 ------------------------------------------------------------------------------------
  String layout(W w, Rec r) {
    w.v++;
    Object o = w.sut.toObj(r);
    ByteBuf b = w.buf.clear();
    w.sut.encode(o, b);
    Ref.Out x = new Ref.Out();
    Ref.enc(r, x);
    w.t += x.steps;
    run.state(Run.fp(r.m.cls.hashCode(), x.b, 0, x.n));
    return bytesDiff(x.done(), take(b));
  }
  void c02() {
    values(true, true, this::layout);
    // absent bodies and extensions encode as nothing
    W w = new W(Sut.fresh(spec));
    for (Msg m : spec.msgs.values()) if (m.union() != null) for (int s = 0; s < 3; s++) {
      Rec r = gen.base(m, s);
      r.v[m.union().idx] = null;
      String k = m + "/s" + s + "/nobody";
      if (run.want(k)) one(w, r, () -> k, this::layout);
    }
    flush(w);
  }

  // ---- C03 ------------------------------------------------------------------------------------
  String decodeBytes(W w, Msg m, byte[] bytes, int len) {
    Rec exp;
    Ref.In in = new Ref.In(bytes, 0, len);
    try { exp = Ref.decode(m, in); } catch (Ref.Truncated | Ref.Unknown x) { return null; }
    w.v++; w.t += in.steps;
    run.state(Run.fp(m.cls.hashCode(), bytes, 0, in.p));
    Object o = w.sut.mc(m).fresh();
    ByteBuf b = w.buf.clear();
    b.writeBytes(bytes, 0, len);
    w.sut.decode(o, b);
    if (b.readerIndex() != in.p) return "decode consumed " + b.readerIndex() + " bytes, the message occupies " + in.p;
    if (b.writerIndex() != len) return "decode moved the writer index";
    Rec got = w.sut.fromObj(o);
    String d = Rec.diff(exp, got, m.simple);
    return d == null ? null : "decoded value differs from the bytes: " + d + " | bytes " + hex(bytes, 200);
  }
  static byte[] plus(byte[] a, byte[] g, int n) { byte[] x = Arrays.copyOf(a, a.length + n); System.arraycopy(g, 0, x, a.length, n); return x; }

  void c03() {
    // (a) every value case, as bytes of the reference encoder, followed by foreign bytes
    values(false, true, (w, r) -> {
      byte[] b = plus(Ref.encode(r), w.garbage, 5);
      return decodeBytes(w, r.m, b, b.length);
    });
    // (b) every single-byte change of every base encoding; (c) adjacent pairs over a text alphabet
    List<Gen.Base> bases = new ArrayList<>();
    for (Msg m : spec.msgs.values()) bases.addAll(gen.bases(m));
    int[] few = {0x00, 0x01, 0x20, 0x30, 0x41, 0x7F, 0x80, 0x8A, 0xC3, 0xE4, 0xFE, 0xFF};
    int[] pair = {0x00, 0x20, 0x30, 0x42, 0xA9, 0xC3, 0xFF};
    run.parallel(bases, () -> new W(Sut.fresh(spec)), (w, base) -> {
      byte[] orig = plus(Ref.encode(base.r), w.garbage, 3);
      int n = orig.length - 3;
      boolean all = base.id.contains("/s1") || run.thorough;
      for (int p = 0; p < n; p++) {
        int old = orig[p];
        for (int x = 0; x < (all ? 256 : few.length); x++) {
          int val = all ? x : few[x];
          final int fp = p;
          if (run.only != null && !run.only.equals(base.id + "@" + fp + "=" + val)) continue;
          orig[p] = (byte) val;
          bytesCase(w, base.r.m, orig, () -> base.id + "@" + fp + "=" + val);
        }
        orig[p] = (byte) old;
        if (run.stop()) return;
      }
      for (int p = 0; p + 1 < n; p++) {
        byte o1 = orig[p], o2 = orig[p + 1];
        for (int x : pair) for (int y : pair) {
          final int fp = p;
          if (run.only != null && !run.only.equals(base.id + "@" + fp + "=" + x + "," + y)) continue;
          orig[p] = (byte) x; orig[p + 1] = (byte) y;
          bytesCase(w, base.r.m, orig, () -> base.id + "@" + fp + "=" + x + "," + y);
        }
        orig[p] = o1; orig[p + 1] = o2;
        if (run.stop()) return;
      }
      run.end();
      flush(w);
    });
    // (d) text fields: every placement of pads in the field (all subsets for short fields, runs for long ones)
    List<Msg> ms = new ArrayList<>(spec.msgs.values());
    run.parallel(ms, () -> new W(Sut.fresh(spec)), (w, m) -> {
      Rec r = gen.base(m, 1);
      for (Gen.Slot s : Gen.slots(r, false, false)) {
        if (s.t.k != K.FIX || s.elem > 0) continue;
        Object old = s.get();
        s.set(null); byte[] a = Ref.encode(r);
        s.set("Q".repeat(s.t.width)); byte[] b = Ref.encode(r);
        s.set(old);
        int off = -1;
        for (int i = 0; i + s.t.width <= a.length && off < 0; i++) if (a[i] != b[i]) off = i;
        byte[] d = plus(b, w.garbage, 2);
        int W = s.t.width;
        byte[] pads = {(byte) s.t.pad, 0, ' ', '0', (byte) 0xFF};
        for (byte pad : pads) {
          if (W <= 10) {
            for (int mask = 0; mask < (1 << W); mask++) {
              final int fm = mask; final byte fpad = pad; final int fo = off;
              Supplier<String> k = () -> m + "/" + s.path + "/pad" + fpad + "mask" + fm;
              if (!run.want(k)) continue;
              for (int i = 0; i < W; i++) d[fo + i] = (mask >> i & 1) != 0 ? pad : (byte) ('A' + i);
              bytesCase(w, m, d, k);
            }
          } else for (int i = 0; i <= W; i++) for (int j = i; j <= W; j += (W > 40 && j - i > 3 ? 7 : 1)) {
            final int fi = i, fj = j; final byte fpad = pad;
            Supplier<String> k = () -> m + "/" + s.path + "/pad" + fpad + "run" + fi + "-" + fj;
            if (!run.want(k)) continue;
            for (int x = 0; x < W; x++) d[off + x] = x >= i && x < j ? pad : (byte) ('A' + x % 26);
            bytesCase(w, m, d, k);
          }
        }
        if (run.stop()) return;
      }
      run.end();
      flush(w);
    });
  }
  void bytesCase(W w, Msg m, byte[] bytes, Supplier<String> key) {
    run.begin(key);
    String e;
    try { e = decodeBytes(w, m, bytes, bytes.length); }
    catch (Sut.Broken x) { e = Sut.desc(x) + " | bytes " + hex(bytes, 200); }
    catch (StackOverflowError | OutOfMemoryError x) { e = "error " + x; }
    if (e != null) run.violation(key.get(), e);
  }

  // ---- C19 ------------------------------------------------------------------------------------
  static final class Site { Msg m; int base; String path; Type t; boolean list; }
  void c19() {
    // every list and text position of every message, directly and inside each frame that carries the message
    List<Object[]> work = new ArrayList<>();
    TreeSet<Integer> lens = new TreeSet<>();
    for (int i = 0; i <= (run.thorough ? 2100 : 300); i++) lens.add(i);
    for (int k = 8; k <= 15; k++) for (int d = -2; d <= 2; d++) lens.add((1 << k) + d);
    for (int x : new int[] {1000, 10000, 40000, 50000, 60000, 65279, 65280, 65281, 65533, 65534, 65535}) lens.add(x);
    for (long x : gen.hv.ints.values().stream().collect(TreeSet<Long>::new, TreeSet::addAll, TreeSet::addAll)) for (int d = -1; d <= 1; d++) if (x + d > 0 && x + d <= 65535) lens.add((int) x + d);
    TreeSet<Integer> big = new TreeSet<>(List.of(65536, 65537, 70000, 100000));
    int sites = 0;
    for (Msg m : spec.msgs.values()) {
      int nv = gen.variants(m);
      for (int v = 0; v < nv; v++) {
        Rec r = gen.base(m, 1, 1, v);
        List<Gen.Slot> ss = Gen.slots(r, false, false);
        for (int si = 0; si < ss.size(); si++) {
          Gen.Slot s = ss.get(si);
          if (s.t.k != K.LIST && s.t.k != K.DYN) continue;
          if (m.isFrame() && s.rec == r) continue;
          sites++;
          Set<Integer> own = new HashSet<>(); // near what the classes involved compare with
          for (String c : new String[] {m.cls, s.m.cls}) for (long x : gen.hv.ownInts(c)) for (int d = -1; d <= 1; d++) if (x + d > 0 && x + d <= 65535) own.add((int) x + d);
          List<Integer> ls = new ArrayList<>();
          boolean nested = s.path.contains(".") || s.path.contains("[");
          for (int n : lens) if (!nested || run.thorough || n < 5 || n % 64 == 0 || n >= 127 && n <= 129 || n >= 255 && n <= 257 || n == 32767 || n == 32768 || n == 65535 || own.contains(n)) ls.add(n);
          if (s.t.bits == 32) ls.addAll(big);
          if (s.t.bits == 32 && run.thorough) ls.addAll(List.of(1 << 20, (1 << 20) + 1, (1 << 24) + 3));
          for (int from = 0; from < ls.size(); from += 40)
            work.add(new Object[] {m, v, si, ls.subList(from, Math.min(ls.size(), from + 40))});
        }
      }
    }
    run.extra.put("length_positions", sites);
    run.extra.put("lengths", lens.size());
    run.parallel(work, () -> new W(Sut.fresh(spec)), (w, it) -> {
      Msg m = (Msg) it[0];
      Rec r = gen.base(m, 1, 1, (Integer) it[1]);
      Gen.Slot s = Gen.slots(r, false, false).get((Integer) it[2]);
      for (Object no : (List<?>) it[3]) {
        int n = (Integer) no;
        if (s.t.k == K.LIST && s.t.elem.k == K.OBJ && n > 70000) continue;
        for (int kind = 0; kind < (s.t.k == K.DYN ? 3 : 4); kind++) {
          final int fk = kind;
          Supplier<String> k = () -> m + "/v" + it[1] + "/" + s.path + "/n" + n + "k" + fk;
          if (!run.want(k)) continue;
          if (s.t.k == K.DYN) {
            if (kind > 0 && n < 4) continue;
            s.set(kind == 0 ? Gen.text(n, n) : kind == 1 ? "\u4e2d".repeat(n / 3) + Gen.text(n % 3, 1) : " " + Gen.text(n - 2, 1) + " ");
          } else if (kind == 0) s.set(gen.list(s.t, n, 1));
          else if (kind == 2 || kind == 3) { // descending; all alike
            if (n < 2 || n > 4100 && (n != 65535 || fullTwice(s))) continue;
            List<Object> l = kind == 2 ? gen.list(s.t, n, 1) : new ArrayList<>(Collections.nCopies(n, gen.list(s.t, 3, 1).get(2)));
            if (kind == 2) Collections.reverse(l);
            s.set(l);
          } else {
            if (s.t.elem.k != K.DYN && s.t.elem.k != K.FIX) continue;
            List<Object> l = gen.list(s.t, n, 1);
            for (int i = 0; i < n; i++) if ((i & 1) == 0 || i == n - 1) l.set(i, "");
            s.set(l);
          }
          run.begin(k);
          one(w, r, k, this::sized);
        }
      }
      run.end();
      flush(w);
    });
  }
  static boolean fullTwice(Gen.Slot s) { return s.path.contains("."); }
  String sized(W w, Rec r) {
    String e = roundTrip(w, r);
    w.buf.capacity(4096);
    if (e != null) return e;
    e = layout(w, r);
    if (w.buf.capacity() > 1 << 20) w.buf.clear().capacity(4096);
    return e;
  }
}
