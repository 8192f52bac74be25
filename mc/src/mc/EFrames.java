package mc;

import io.netty.buffer.*;
import java.util.*;
import java.util.function.*;
import mc.Spec.*;

/** C04 length field, C05 checksum field, C14 streams. */
public final class EFrames {
  final Run run; final Spec spec; final Gen gen;
  final List<Msg> frames = new ArrayList<>();
  EFrames(Run run, Spec spec, Harvest hv) {
    this.run = run; this.spec = spec; gen = new Gen(spec, hv, run.thorough);
    for (Msg m : spec.msgs.values()) if (m.isFrame()) frames.add(m);
  }
  static int width(Msg m, int from, int to) {
    int n = 0;
    for (int i = from; i < to; i++) n += m.fields.get(i).t.bits / 8;
    return n;
  }
  static long rd(byte[] b, int off, Type t) {
    int w = t.bits / 8; long x = 0;
    for (int i = 0; i < w; i++) x |= (b[off + i] & 0xFFL) << (8 * (t.le ? i : w - 1 - i));
    return Ref.toLong(Ref.box(x, t.bits));
  }

  /** Bodies a frame can carry: absent, every message of the protocol in 3 styles and all variants, big ones, frames. */
  List<Rec> bodies(Msg frame) {
    List<Rec> l = new ArrayList<>();
    l.add(null);
    for (Msg m : spec.msgs.values()) {
      if (!m.proto().equals(frame.proto()) && !run.thorough && !m.isFrame()) continue;
      for (int v = 0; v < gen.variants(m); v++) for (int s = 0; s < 3; s++) l.add(gen.base(m, s, 1, v));
    }
    l.addAll(big(frame));
    return l;
  }
  List<Rec> big(Msg frame) {
    List<Rec> l = new ArrayList<>();
    for (Msg m : spec.msgs.values()) {
      if (m.isFrame()) continue;
      Rec r = gen.base(m, 1);
      boolean any = false;
      for (Field f : m.fields) {
        if (f.t.k == K.LIST && (m.proto().equals(frame.proto()) || m.simple.equals("BasicPacket"))) {
          for (int n : new int[] {40, 300, 3000, 20000}) { Rec c = gen.base(m, 1); c.v[f.idx] = gen.list(f.t, n, 1); l.add(c); }
        }
        if (f.t.k == K.DYN && m.proto().equals(frame.proto()))
          for (int n : new int[] {100, 256, 1000, 32767, 65000}) { Rec c = gen.base(m, 1); c.v[f.idx] = Gen.text(n, n); l.add(c); }
      }
    }
    // one body of every small size, so that no total length is special
    for (int n = 0; n <= 600; n++) {
      Rec c = gen.base(spec.msgs.get("com.finproto.risk.bin.messages.RiskResult"), 2);
      c.v[c.m.f("riskReason").idx] = Gen.text(n, 5);
      l.add(c);
    }
    return l;
  }

  // ---- C04 --------------------------------------------------------------------------------------
  static final int[] PRIOR = {0, 1, -1, 77, 0x7FFFFFFF, 0x80000000, 0x01000000};
  void c04() {
    List<Object[]> work = new ArrayList<>();
    for (Msg f : frames) if (f.byKind(K.LEN) != null) { int i = 0; for (Rec b : bodies(f)) work.add(new Object[] {f, b, i++}); }
    run.extra.put("frames", frames.stream().filter(f -> f.byKind(K.LEN) != null).count());
    run.extra.put("frame_body_pairs", work.size());
    run.parallel(work, () -> Sut.fresh(spec), (sut, it) -> {
      Msg f = (Msg) it[0]; Rec body = (Rec) it[1];
      long t = 0;
      for (int prior : PRIOR) for (int off : new int[] {0, 1, 5, 257}) for (int cap : new int[] {0, 1, 1 << 20}) {
        final int fcap = cap;
        Supplier<String> k = () -> f + "/body" + it[2] + "/prior" + prior + "/off" + off + "/cap" + fcap;
        if (!run.want(k)) continue;
        run.begin(k);
        try {
          Rec r = gen.base(f, 1);
          r.v[f.union().idx] = body;
          r.v[f.byKind(K.LEN).idx] = prior;
          Object o = sut.toObj(r);
          ByteBuf b = Unpooled.buffer(cap == 1 ? off : cap == 0 ? off + 3 : cap > 0 && off + 100 > cap ? off : Math.max(off, 4096));
          b.writeZero(off);
          int n = 0;
          if (body != null) { ByteBuf x = Unpooled.buffer(64); sut.encode(sut.toObj(body), x); n = x.readableBytes(); t++; }
          for (int rep = 0; rep < 2; rep++) {
            int start = b.writerIndex();
            sut.encode(o, b);
            t++;
            String e = lenOk(sut, f, o, b, start, n);
            if (e != null) { run.violation(k.get(), e + (rep > 0 ? " (second encode)" : "")); break; }
          }
        } catch (Sut.Broken x) { run.violation(k.get(), Sut.desc(x)); }
        run.states.increment();
      }
      run.transitions.add(t);
      run.traces.add(t);
      run.end();
    });
    c04decode();
    histories("C04");
  }
  String lenOk(Sut sut, Msg f, Object o, ByteBuf b, int start, int n) {
    Field lf = f.byKind(K.LEN), uf = f.union();
    int lenOff = width(f, 0, lf.idx), head = width(f, 0, uf.idx), tail = width(f, uf.idx + 1, f.fields.size());
    int total = b.writerIndex() - start;
    if (total != head + n + tail) return "frame occupies " + total + " bytes, header " + head + " + body " + n + " + trailer " + tail + " expected";
    byte[] d = new byte[total];
    b.getBytes(start, d);
    long wire = rd(d, lenOff, lf.t);
    if (wire != n) return "length on the wire is " + wire + ", the body occupies " + n + " bytes";
    long obj = Ref.toLong(sut.mc(f).get(o, lf.idx));
    if (obj != n) return "length in the frame object is " + obj + " after encoding a body of " + n + " bytes";
    return null;
  }
  void c04decode() {
    Sut sut = Sut.fresh(spec);
    for (Msg f : frames) if (f.byKind(K.LEN) != null) for (int v = 0; v < gen.variants(f); v++) for (int s = 0; s < 2; s++) {
      byte[] w = Ref.encode(gen.base(f, s, 1, v));
      Field lf = f.byKind(K.LEN);
      int off = width(f, 0, lf.idx), k8 = lf.t.bits / 8;
      int n = (int) rd(w, off, lf.t);
      for (int x : new int[] {n, n + 1, n - 1, 0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, 0x01020304, 0x7FFFFFFF, 0x80000000, -1, 0x81828384}) {
        final int fv = v, fs = s;
        Supplier<String> k = () -> f + "/decode/v" + fv + "s" + fs + "/len" + x;
        if (!run.want(k)) continue;
        for (int i = 0; i < k8; i++) w[off + i] = (byte) (x >>> (8 * (lf.t.le ? i : k8 - 1 - i)));
        if (x != n && x > w.length) continue; // more than the buffer holds: rejecting is as good
        run.begin(k);
        try {
          Object o = sut.mc(f).fresh();
          try { sut.rawDecode(o, Unpooled.wrappedBuffer(w)); }
          catch (Throwable t) { if (x != n && t instanceof RuntimeException) continue; throw new Sut.Broken("decode threw " + Sut.desc(t), t); }
          long got = Ref.toLong(sut.mc(f).get(o, lf.idx));
          if (got != x) run.violation(k.get(), "decoded length is " + got + ", the wire says " + x);
        } catch (Sut.Broken t) { run.violation(k.get(), Sut.desc(t)); }
        run.states.increment(); run.transitions.increment(); run.traces.increment();
      }
    }
    run.end();
  }

  // ---- operation histories on one frame object (C04, C05) -----------------------------------------
  /** Model of one frame object, one buffer and the checksum registry. */
  final class World {
    final Sut sut; final Msg f; final Object o; ByteBuf buf; int consumed;
    Rec body; int sum; String svc = "std"; final Field lf, sf;
    Object bodyObj;
    World(Sut sut, Msg f) {
      this.sut = sut; this.f = f;
      lf = f.byKind(K.LEN); sf = f.byKind(K.SUM);
      Rec r = gen.base(f, 1);
      body = (Rec) r.v[f.union().idx];
      sum = sf == null ? 0 : (Integer) r.v[sf.idx];
      o = sut.toObj(r);
      buf = Unpooled.buffer(8);
      reset();
    }
    void reset() {
      if (sf == null) return;
      try {
        Sut.Sums s = sut.sums();
        s.clear();
        for (String a : new String[] {"CRC16", "CRC32", "SSE_BIN", "SZSE_BIN"}) s.registry(s.std(a));
      } catch (Throwable t) { throw new Sut.Broken("checksum registry: " + Sut.desc(t), t); }
    }
    String encode(ByteBuf b) {
      int start = b.writerIndex();
      byte[] before = new byte[start];
      b.getBytes(0, before);
      int ri = b.readerIndex();
      sut.encode(o, b);
      if (b.readerIndex() != ri) return "encode moved the reader index";
      byte[] after = new byte[start];
      b.getBytes(0, after);
      if (!Arrays.equals(before, after)) return "encode changed bytes before the frame";
      int n = 0;
      if (body != null) n = bodyLen(body);
      if (run.prop.equals("C04")) return lenOk(sut, f, o, b, start, n);
      if (sf == null) return null;
      return sumOk(b, start);
    }
    final Map<Rec, Integer> lens = new IdentityHashMap<>();
    int bodyLen(Rec r) {
      Integer k = lens.get(r);
      if (k == null) { ByteBuf x = Unpooled.buffer(64); sut.encode(sut.toObj(r), x); lens.put(r, k = x.readableBytes()); }
      return k;
    }
    String sumOk(ByteBuf b, int start) {
      int w = sf.t.bits / 8, total = b.writerIndex() - start;
      if (total < w) return "frame of " + total + " bytes";
      byte[] d = new byte[total];
      b.getBytes(start, d);
      int exp;
      switch (svc) {
        case "std": exp = Ref.checksum(sf.t.ref, d, 0, total - w); break;
        case "custom": exp = fn(Arrays.copyOf(d, total - w)); break;
        default: exp = sum;
      }
      long wire = rd(d, total - w, sf.t), obj = Ref.toLong(sut.mc(f).get(o, sf.idx));
      if (wire != exp) return "checksum on the wire is " + wire + ", expected " + exp + " (service: " + svc + ") over the " + (total - w) + " bytes of the frame at offset " + start;
      if (obj != exp) return "checksum in the frame object is " + obj + ", expected " + exp;
      sum = exp;
      return null;
    }
  }
  static int fn(byte[] d) { int h = 17; for (byte x : d) h = h * 31 + x; return h; }

  interface Op { String apply(World w) throws Throwable; }
  void histories(String prop) {
    boolean sums = prop.equals("C05");
    int depth = run.thorough ? 5 : 4;
    List<Object[]> work = new ArrayList<>();
    for (Msg f : frames) {
      if (sums ? f.byKind(K.SUM) == null : f.byKind(K.LEN) == null) continue;
      int nops = ops(f, sums).size();
      for (int a = 0; a < nops; a++) for (int b = 0; b < nops; b++) work.add(new Object[] {f, a, b});
      run.extra.put("history_ops_" + f, nops);
    }
    run.extra.put("history_depth", depth);
    run.parallel(work, () -> Sut.fresh(spec), (sut, it) -> {
      Msg f = (Msg) it[0];
      LinkedHashMap<String, Op> ops = ops(f, sums);
      List<String> names = new ArrayList<>(ops.keySet());
      int[] seq = new int[depth];
      seq[0] = (Integer) it[1]; seq[1] = (Integer) it[2];
      int inner = (int) Math.pow(names.size(), depth - 2);
      for (int c = 0; c < inner && !run.stop(); c++) {
        int x = c;
        for (int i = 2; i < depth; i++) { seq[i] = x % names.size(); x /= names.size(); }
        StringBuilder kb = new StringBuilder(f + "/hist");
        for (int i : seq) kb.append('/').append(names.get(i));
        String key = kb.toString();
        if (!run.want(key)) continue;
        run.begin(() -> key);
        try {
          World w = new World(sut, f);
          for (int i = 0; i < depth; i++) {
            String e = ops.get(names.get(seq[i])).apply(w);
            run.transitions.increment();
            if (e == null && i == depth - 1) e = w.encode(w.buf);
            if (e != null) { run.violation(key, e + " (after step " + i + ")"); break; }
          }
          run.states.increment(); run.traces.increment();
        } catch (Sut.Broken b) { run.violation(key, Sut.desc(b)); }
        catch (Throwable t) { throw new RuntimeException(t); }
      }
      run.end();
    });
  }
  LinkedHashMap<String, Op> ops(Msg f, boolean sums) {
    LinkedHashMap<String, Op> o = new LinkedHashMap<>();
    int ui = f.union().idx;
    List<Object> keys = new ArrayList<>(f.union().t.reg.table.keySet());
    Rec small = gen.base(f.union().t.reg.table.get(keys.get(0)), 0);
    Rec large = gen.base(f.union().t.reg.table.get(keys.get(keys.size() / 2)), 1);
    Rec self = gen.base(f, 2);
    o.put("enc", w -> w.encode(w.buf));
    o.put("encNew", w -> w.encode(Unpooled.buffer(3)));
    o.put("bodySmall", w -> { w.sut.mc(f).set(w.o, ui, w.sut.toObj(small)); w.body = small; return null; });
    o.put("bodyLarge", w -> { w.sut.mc(f).set(w.o, ui, w.sut.toObj(large)); w.body = large; return null; });
    o.put("bodyNone", w -> { w.sut.mc(f).set(w.o, ui, null); w.body = null; return null; });
    o.put("bodyFrame", w -> { w.sut.mc(f).set(w.o, ui, w.sut.toObj(self)); w.body = self; return null; });
    o.put("skip", w -> { int n = w.buf.readableBytes(); w.buf.skipBytes(n - n / 3); return null; });
    if (!sums) {
      Field lf = f.byKind(K.LEN);
      o.put("setLen", w -> { w.sut.mc(f).set(w.o, lf.idx, 0x01020304); return null; });
      o.put("decode", w -> {
        Rec r = gen.base(f, 2, 1, 0);
        w.sut.decode(w.o, Unpooled.wrappedBuffer(Ref.encode(r)));
        w.body = (Rec) r.v[ui];
        long n = Ref.toLong(w.sut.mc(f).get(w.o, lf.idx));
        return n == Ref.encode(w.body).length ? null : "decoded length " + n;
      });
      o.put("truncated", w -> {
        Rec r = gen.base(f, 2, 1, 0);
        byte[] d = Ref.encode(r);
        Object body = w.sut.mc(f).get(w.o, ui);
        try { w.sut.rawDecode(w.o, Unpooled.wrappedBuffer(d, 0, width(f, 0, ui))); } catch (RuntimeException | Error t) { /* rejected or partial */ }
        catch (Throwable t) { throw new Sut.Broken("decode threw " + t); }
        w.sut.mc(f).set(w.o, ui, body);
        return null;
      });
    } else {
      Field sf = f.byKind(K.SUM);
      o.put("setSum", w -> { w.sut.mc(f).set(w.o, sf.idx, 0x0A0B0C0D); w.sum = 0x0A0B0C0D; return null; });
      o.put("remove", w -> { w.sut.sums().remove(sf.t.ref); w.svc = "none"; return null; });
      o.put("clear", w -> { w.sut.sums().clear(); w.svc = "none"; return null; });
      o.put("regStd", w -> { boolean ok = w.sut.sums().registry(w.sut.sums().std(sf.t.ref)); if (ok != w.svc.equals("none")) return "registering the service returned " + ok; if (ok) w.svc = "std"; return null; });
      o.put("regCustom", w -> { boolean ok = w.sut.sums().registry(w.sut.sums().custom(sf.t.ref, EFrames::fn)); if (ok != w.svc.equals("none")) return "registering the service returned " + ok; if (ok) w.svc = "custom"; return null; });
      o.put("regOther", w -> { String other = sf.t.ref.equals("CRC16") ? "CRC32" : "CRC16"; w.sut.sums().remove(other); w.sut.sums().registry(w.sut.sums().custom(other, d -> 5)); return null; });
      o.put("decode", w -> {
        Rec r = gen.base(f, 2, 1, 0);
        byte[] d = Ref.encode(r);
        for (int i = 1; i <= sf.t.bits / 8; i++) d[d.length - i] ^= 0x5A + i;
        w.sut.decode(w.o, Unpooled.wrappedBuffer(d));
        w.body = (Rec) r.v[ui];
        w.sum = (int) rd(d, d.length - sf.t.bits / 8, sf.t);
        long got = Ref.toLong(w.sut.mc(f).get(w.o, sf.idx));
        return got == w.sum ? null : "decode reports checksum " + got + ", received " + w.sum;
      });
    }
    return o;
  }

  // ---- C05 --------------------------------------------------------------------------------------
  void c05() {
    // the named algorithms are available by default, also when a frame class is the first thing used
    for (Msg f : frames) {
      Field sf = f.byKind(K.SUM);
      if (sf == null) continue;
      String k = f + "/default";
      if (!run.want(k)) continue;
      Sut sut = Sut.fresh(spec);
      try {
        Rec r = gen.base(f, 1);
        ByteBuf b = Unpooled.buffer(64);
        sut.encode(sut.toObj(r), b);
        byte[] d = EValues.take(b);
        int w = sf.t.bits / 8;
        int exp = Ref.checksum(sf.t.ref, d, 0, d.length - w);
        if (rd(d, d.length - w, sf.t) != exp) run.violation(k, "checksum " + rd(d, d.length - w, sf.t) + " expected " + exp + " with default services");
        Object s = sut.sums().get(sf.t.ref);
        if (s == null) run.violation(k, "no service " + sf.t.ref + " by default");
      } catch (Throwable t) { run.violation(k, Sut.desc(t)); }
      run.states.increment(); run.transitions.increment();
    }
    List<Object[]> work = new ArrayList<>();
    for (Msg f : frames) if (f.byKind(K.SUM) != null) { int i = 0; for (Rec b : bodies(f)) work.add(new Object[] {f, b, i++}); }
    run.extra.put("frame_body_pairs", work.size());
    int[] priors = {0, -1, 0x01020304};
    run.parallel(work, () -> Sut.fresh(spec), (sut, it) -> {
      Msg f = (Msg) it[0]; Rec body = (Rec) it[1];
      for (int svc = 0; svc < 3; svc++) {
        World w = new World(sut, f);
        w.body = body;
        sut.mc(f).set(w.o, f.union().idx, sut.toObj(body));
        try {
          if (svc > 0) { sut.sums().remove(w.sf.t.ref); w.svc = "none"; }
          if (svc == 2) { sut.sums().registry(sut.sums().custom(w.sf.t.ref, EFrames::fn)); w.svc = "custom"; }
        } catch (Throwable t) { run.violation(f + "/svc" + svc, Sut.desc(t)); return; }
        for (int prior : priors) for (int off : new int[] {0, 1, 19, 300}) for (int skip = 0; skip < 3; skip++) for (int pre = 0; pre < 2; pre++) for (int cap : new int[] {0, 8192}) {
          if (off == 0 && skip > 0) continue;
          final int fs = svc, fk = skip, fp = pre;
          Supplier<String> k = () -> f + "/body" + it[2] + "/svc" + fs + "/prior" + prior + "/off" + off + "/skip" + fk + "/pre" + fp + "/cap" + cap;
          if (!run.want(k)) continue;
          run.begin(k);
          try {
            ByteBuf b = Unpooled.buffer(Math.max(off, cap));
            for (int i = 0; i < off; i++) b.writeByte(i * 37 + 11);
            b.skipBytes(skip == 0 ? 0 : skip == 1 ? off : off / 2);
            if (pre == 1) { // another frame of the same protocol before ours
              sut.encode(sut.toObj(gen.base(f, 2)), b);
            }
            sut.mc(f).set(w.o, w.sf.idx, prior);
            w.sum = prior;
            int start = b.writerIndex();
            sut.encode(w.o, b);
            String e = w.sumOk(b, start);
            run.transitions.increment();
            if (e != null) run.violation(k.get(), e + " | body " + body);
          } catch (Sut.Broken x) { run.violation(k.get(), Sut.desc(x)); }
          run.states.increment(); run.traces.increment();
        }
        w.reset();
      }
      run.end();
    });
    // contents: every single byte of a frame matters
    contents();
    histories("C05");
  }
  void contents() {
    List<Msg> fs = new ArrayList<>();
    for (Msg f : frames) if (f.byKind(K.SUM) != null) fs.add(f);
    List<Object[]> work = new ArrayList<>();
    for (Msg f : fs) for (int v = 0; v < gen.variants(f); v++) work.add(new Object[] {f, v});
    run.parallel(work, () -> Sut.fresh(spec), (sut, it) -> {
      Msg f = (Msg) it[0];
      World w = new World(sut, f);
      Rec r = gen.base(f, 1, 1, (Integer) it[1]);
      ByteBuf b = Unpooled.buffer(1024);
      for (Gen.Slot s : Gen.slots(r, true, true)) {
        Object[] a = gen.alphabet(s);
        Object old = s.get();
        for (int i = 0; i < a.length; i++) {
          final int fi = i;
          Supplier<String> k = () -> f + "/v" + it[1] + "/" + s.path + "=#" + fi;
          if (!run.want(k)) continue;
          if (s.t.k == K.OBJ) continue;
          s.set(a[i]);
          run.begin(k);
          try {
            b.clear();
            Object o = sut.toObj(r);
            sut.encode(o, b);
            byte[] d = EValues.take(b);
            int wd = w.sf.t.bits / 8;
            int exp = Ref.checksum(w.sf.t.ref, d, 0, d.length - wd);
            if (rd(d, d.length - wd, w.sf.t) != exp) run.violation(k.get(), "checksum on the wire " + rd(d, d.length - wd, w.sf.t) + " expected " + exp + " | " + r);
          } catch (Sut.Broken x) { run.violation(k.get(), Sut.desc(x)); }
          run.states.increment(); run.transitions.increment(); run.traces.increment();
        }
        s.set(old);
        if (run.stop()) return;
      }
      run.end();
    });
  }

  // ---- C14 --------------------------------------------------------------------------------------
  void c14() {
    List<Object[]> work = new ArrayList<>();
    for (Msg f : frames) {
      List<Rec> all = new ArrayList<>();
      for (int v = 0; v < gen.variants(f); v++) for (int s = 0; s < 3; s++) all.add(gen.base(f, s, 1, v));
      List<Rec> reps = reps(f);
      for (int i = 0; i < all.size(); i++) for (int j = 0; j < all.size(); j++)
        work.add(new Object[] {f, List.of(all.get(i), all.get(j)), f + "/pair" + i + "," + j, run.thorough});
      for (int i = 0; i < reps.size(); i++) for (int j = 0; j < reps.size(); j++) {
        work.add(new Object[] {f, List.of(reps.get(i), reps.get(j)), f + "/seg" + i + "," + j, true});
        for (int l = 0; l < reps.size(); l++)
          work.add(new Object[] {f, List.of(reps.get(i), reps.get(j), reps.get(l)), f + "/triple" + i + "," + j + "," + l, run.thorough});
      }
      // the same object encoded repeatedly, long streams
      List<Rec> longStream = new ArrayList<>();
      for (int i = 0; i < 40; i++) longStream.add(reps.get(i * i % reps.size()));
      work.add(new Object[] {f, longStream, f + "/long", false});
      // longer than any pool, window or 8- or 10-bit counter of recent frames
      List<Rec> longer = new ArrayList<>();
      for (int i = 0; i < (run.thorough ? 20000 : 1200); i++) { int v = i * i % 7 + i % 3; longer.add(v < reps.size() ? reps.get(v) : gen.base(f, 1 + i % 2, 1 + i % 11, i % gen.variants(f))); }
      work.add(new Object[] {f, longer, f + "/longer", false});
    }
    run.extra.put("streams", work.size());
    run.parallel(work, () -> Sut.fresh(spec), (sut, it) -> {
      @SuppressWarnings("unchecked") List<Rec> seq = (List<Rec>) it[1];
      stream(sut, (Msg) it[0], seq, (String) it[2], (Boolean) it[3]);
      run.end();
    });
    interleaved();
  }
  List<Rec> reps(Msg f) {
    List<Rec> l = new ArrayList<>();
    int n = gen.variants(f);
    // distinct shapes: first, group-carrying, text-carrying, empty and extension-carrying bodies
    TreeSet<Integer> vs = new TreeSet<>();
    List<Msg> ms = new ArrayList<>(f.union().t.reg.table.values());
    int empty = -1, group = -1, text = -1, union = -1;
    for (int v = 0; v < n; v++) {
      Msg m = ms.get(v);
      if (m.fields.isEmpty() && empty < 0) empty = v;
      if (m.byKind(K.LIST) != null && group < 0) group = v;
      if (m.byKind(K.DYN) != null && text < 0) text = v;
      if (m.union() != null && union < 0) union = v;
    }
    for (int v : new int[] {0, empty, group, text, union, n - 1}) if (v >= 0) vs.add(v);
    for (int v : vs) l.add(gen.base(f, 1, 1, v));
    l.add(gen.base(f, 0, 1, group >= 0 ? group : 0));
    return l;
  }
  void stream(Sut sut, Msg f, List<Rec> seq, String id, boolean segment) {
    try {
      // each frame alone
      List<byte[]> alone = new ArrayList<>();
      List<Rec> exp = new ArrayList<>();
      int total = 0;
      for (Rec r : seq) {
        ByteBuf b = Unpooled.buffer(64);
        Object o = sut.toObj(r);
        sut.encode(o, b);
        byte[] d = EValues.take(b);
        alone.add(d); total += d.length;
        Rec e = Ref.canon(r); EValues.computed(sut, o, e);
        exp.add(e);
      }
      byte[] want = new byte[total];
      int p = 0;
      for (byte[] d : alone) { System.arraycopy(d, 0, want, p, d.length); p += d.length; }
      for (int mode = 0; mode < 3; mode++) { // 0: new objects, 1: one object refilled, 2: all objects built first
        final int fm = mode;
        String k = id + "/enc" + mode;
        if (!run.want(k)) continue;
        run.begin(() -> k);
        ByteBuf b = Unpooled.buffer(mode == 0 ? 16 : 4096);
        List<Object> objs = new ArrayList<>();
        if (mode == 2) for (Rec r : seq) objs.add(sut.toObj(r));
        Object one = sut.mc(f).fresh();
        for (int i = 0; i < seq.size(); i++) {
          Object o = fm == 0 ? sut.toObj(seq.get(i)) : fm == 1 ? one : objs.get(i);
          if (fm == 1) sut.fill(o, seq.get(i));
          sut.encode(o, b);
          run.transitions.increment();
        }
        String e = EValues.bytesDiff(want, EValues.take(b));
        if (e != null) run.violation(k, "stream differs from the frames encoded alone: " + e);
        run.states.increment(); run.traces.increment();
      }
      for (int mode = 0; mode < 2; mode++) {
        String k = id + "/dec" + mode;
        if (!run.want(k)) continue;
        run.begin(() -> k);
        ByteBuf b = Unpooled.wrappedBuffer(want);
        Object one = sut.mc(f).fresh();
        List<Object> got = new ArrayList<>();
        p = 0;
        for (int i = 0; i < seq.size(); i++) {
          Object o = mode == 0 ? sut.mc(f).fresh() : one;
          sut.decode(o, b);
          run.transitions.increment();
          p += alone.get(i).length;
          if (b.readerIndex() != p) { run.violation(k, "frame " + i + " decoded up to offset " + b.readerIndex() + " instead of " + p); break; }
          String d = Rec.diff(exp.get(i), sut.fromObj(o), "frame" + i);
          if (d != null) { run.violation(k, d); break; }
          got.add(o);
        }
        if (mode == 0) for (int i = 0; i < got.size(); i++) {
          String d = Rec.diff(exp.get(i), sut.fromObj(got.get(i)), "frame" + i);
          if (d != null) { run.violation(k, "frame " + i + " changed when later frames were decoded: " + d); break; }
        }
        run.states.increment(); run.traces.increment();
      }
      if (segment) {
        for (int cut = 0; cut <= total; cut++) for (int mode = 0; mode < 5; mode++) {
          if (total > 1200 && !run.thorough && cut % 7 != 0 && cut > 100 && cut < total - 100) continue;
          String k = id + "/cut" + cut + "m" + mode;
          if (!run.want(k)) continue;
          run.begin(() -> k);
          String e = deliver(sut, f, want, new int[] {cut, total}, alone, exp, mode);
          if (e != null) run.violation(k, e);
          if (run.stop()) return;
        }
        int[] bytewise = new int[total];
        for (int i = 0; i < total; i++) bytewise[i] = i + 1;
        String k = id + "/bytewise";
        if (run.want(k) && total < 1200) {
          for (int mode = 0; mode < 5; mode++) {
            String e = deliver(sut, f, want, bytewise, alone, exp, mode);
            if (e != null) run.violation(k, e + " (mode " + mode + ")");
          }
        }
      }
      if (!segment && seq.size() > 100) { // every frame of a long stream arrives in two parts, cut at a place that moves along
        for (int step = 1; step <= (run.thorough ? 60 : 12); step++) for (int mode = 0; mode < 5; mode++) {
          final int fs = step, fm = mode;
          String k = id + "/parts" + fs + "m" + fm;
          if (!run.want(k)) continue;
          run.begin(() -> k);
          int[] at = new int[seq.size() + 1];
          p = 0;
          for (int i = 0; i < seq.size(); i++) { int n = alone.get(i).length; at[i] = p + Math.min(n - 1, step == 1 ? n - 1 : step == 2 ? 1 : (i * 7 + step * step * 3) % n); p += n; }
          at[seq.size()] = total;
          String e = deliver(sut, f, want, at, alone, exp, mode);
          if (e != null) run.violation(k, e);
        }
      }
      // a rejected frame between good ones
      String k = id + "/reject";
      if (run.want(k)) {
        ByteBuf b = Unpooled.buffer(64);
        b.writeBytes(alone.get(0));
        byte[] bad = alone.get(0).clone();
        for (int i = 0; i < f.fields.get(0).t.bits / 8; i++) bad[i] = (byte) 0x77;
        b.writeBytes(bad);
        b.writeBytes(alone.get(seq.size() - 1));
        Object a = sut.mc(f).fresh(), x = sut.mc(f).fresh(), c = sut.mc(f).fresh();
        sut.decode(a, b);
        boolean rejected = false;
        try { sut.rawDecode(x, b); } catch (Throwable t) { rejected = true; }
        if (!rejected) run.violation(k, "frame with unknown type was accepted");
        b.readerIndex(alone.get(0).length + bad.length);
        sut.decode(c, b);
        String d = Rec.diff(exp.get(0), sut.fromObj(a), "first");
        if (d == null) d = Rec.diff(exp.get(seq.size() - 1), sut.fromObj(c), "last");
        if (d != null) run.violation(k, "a rejected frame disturbed another: " + d);
        run.transitions.add(3); run.states.increment(); run.traces.increment();
      }
    } catch (Sut.Broken x) { run.violation(id, Sut.desc(x)); }
  }
  /** Delivers the stream in segments; the reader retries a frame from its start whenever it failed. */
  /** Mode: one object for all frames or a new one each; bytes gathered in a growing, composite or compacted buffer. */
  String deliver(Sut sut, Msg f, byte[] all, int[] upto, List<byte[]> frames, List<Rec> exp, int mode) {
    boolean reuse = mode == 1 || mode == 4;
    ByteBuf b = mode == 2 ? Unpooled.compositeBuffer(Integer.MAX_VALUE) : mode == 4 ? Unpooled.directBuffer(32) : Unpooled.buffer(32);
    try { return deliver(sut, f, all, upto, frames, exp, mode, reuse, b); } finally { b.release(); }
  }
  String deliver(Sut sut, Msg f, byte[] all, int[] upto, List<byte[]> frames, List<Rec> exp, int mode, boolean reuse, ByteBuf b) {
    int have = 0, next = 0, end = 0;
    List<Object> got = new ArrayList<>();
    Object spare = sut.mc(f).fresh();
    for (int u : upto) {
      if (mode == 3) { end -= b.readerIndex(); b.discardReadBytes(); }
      if (mode == 4) { int at = b.readerIndex(); b.discardSomeReadBytes(); end -= at - b.readerIndex(); }
      if (mode == 2) ((CompositeByteBuf) b).addComponent(true, Unpooled.wrappedBuffer(all, have, u - have));
      else b.writeBytes(all, have, u - have);
      have = u;
      while (next < frames.size()) {
        int start = b.readerIndex();
        Object o = reuse ? spare : sut.mc(f).fresh();
        boolean complete = b.readableBytes() >= frames.get(next).length;
        run.transitions.increment();
        try { sut.rawDecode(o, b); }
        catch (Throwable t) {
          if (complete) return "frame " + next + " is complete but decode threw " + Sut.desc(t) + " (" + have + " bytes delivered)";
          b.readerIndex(start);
          break;
        }
        if (!complete) return "frame " + next + " was returned from " + (b.writerIndex() - start) + " of its " + frames.get(next).length + " bytes";
        end += frames.get(next).length;
        if (b.readerIndex() != end) return "frame " + next + " ends at " + b.readerIndex() + " instead of " + end;
        String d = Rec.diff(exp.get(next), sut.fromObj(o), "frame" + next);
        if (d != null) return d;
        got.add(o);
        next++;
      }
    }
    run.states.increment(); run.traces.increment();
    if (next != frames.size()) return "only " + next + " frames decoded";
    if (!reuse) for (int i = 0; i < got.size(); i++) {
      String d = Rec.diff(exp.get(i), sut.fromObj(got.get(i)), "frame" + i);
      if (d != null) return "frame " + i + " changed later: " + d;
    }
    return null;
  }
  /** Two protocols' streams handled alternately in one process. */
  void interleaved() {
    Sut sut = Sut.fresh(spec);
    for (Msg f : frames) for (Msg g : frames) {
      List<Rec> a = reps(f), b = reps(g);
      for (int i = 0; i < a.size(); i++) for (int j = 0; j < b.size(); j++) {
        String k = "mix/" + f + i + "/" + g + j;
        if (!run.want(k)) continue;
        run.begin(() -> k);
        try {
          ByteBuf x = Unpooled.buffer(64), y = Unpooled.buffer(64);
          Object p = sut.toObj(a.get(i)), q = sut.toObj(b.get(j));
          sut.encode(p, x); sut.encode(q, y); sut.encode(p, x);
          byte[] e1 = Ref.encode(a.get(i));
          String e = EValues.bytesDiff(cat(e1, e1), EValues.take(x));
          if (e == null) e = EValues.bytesDiff(Ref.encode(b.get(j)), EValues.take(y));
          Object p1 = sut.mc(f).fresh(), q1 = sut.mc(g).fresh(), p2 = sut.mc(f).fresh();
          sut.decode(p1, x); sut.decode(q1, y); sut.decode(p2, x);
          Rec ea = Ref.canon(Ref.afterEncode(a.get(i))), eb = Ref.canon(Ref.afterEncode(b.get(j)));
          if (e == null) e = Rec.diff(ea, sut.fromObj(p1), "first");
          if (e == null) e = Rec.diff(eb, sut.fromObj(q1), "second");
          if (e == null) e = Rec.diff(ea, sut.fromObj(p2), "third");
          if (e != null) run.violation(k, e);
          run.transitions.add(6); run.states.increment(); run.traces.increment();
        } catch (Sut.Broken t) { run.violation(k, Sut.desc(t)); }
      }
    }
    run.end();
  }
  static byte[] cat(byte[] a, byte[] b) { byte[] x = Arrays.copyOf(a, a.length + b.length); System.arraycopy(b, 0, x, a.length, b.length); return x; }
}
