package mc;

import io.netty.buffer.*;
import java.lang.management.ManagementFactory;
import java.util.*;
import java.util.function.*;
import mc.Spec.*;

/** C10 respect for the caller's buffer, C11 truncated and hostile input. */
public final class EBuffers {
  final Run run; final Spec spec; final Gen gen;
  EBuffers(Run run, Spec spec, Harvest hv) { this.run = run; this.spec = spec; gen = new Gen(spec, hv, run.thorough); }

  // ---- writable buffers --------------------------------------------------------------------------
  interface WMaker { ByteBuf make(int cap); }
  static ByteBuf fill(ByteBuf b) { for (int i = 0; i < b.capacity(); i++) b.setByte(i, pat(i)); return b; }
  static int pat(int i) { return (i * 73 + 0xA7) & 0xFF; }
  static CompositeByteBuf writable(int cap, int... cuts) {
    CompositeByteBuf c = Unpooled.compositeBuffer(Math.max(16, cap + 8));
    int p = 0;
    for (int i = 0; i <= cuts.length; i++) {
      int e = i < cuts.length ? cuts[i] : cap;
      if (e > p) c.addComponent(true, (i % 2 == 0 ? Unpooled.buffer(e - p, e - p) : Unpooled.directBuffer(e - p, e - p)).writeZero(e - p));
      p = Math.max(p, e);
    }
    c.clear();
    return c;
  }
  static LinkedHashMap<String, WMaker> writables() {
    LinkedHashMap<String, WMaker> m = new LinkedHashMap<>();
    m.put("heap", c -> Unpooled.buffer(c));
    m.put("heapFixed", c -> Unpooled.buffer(c, c));
    m.put("direct", c -> Unpooled.directBuffer(Math.max(1, c)));
    m.put("directFixed", c -> Unpooled.directBuffer(Math.max(1, c), Math.max(1, c)));
    m.put("pooledHeap", c -> PooledByteBufAllocator.DEFAULT.heapBuffer(Math.max(1, c)));
    m.put("pooledDirect", c -> PooledByteBufAllocator.DEFAULT.directBuffer(Math.max(1, c)));
    m.put("heapSlice", c -> Unpooled.buffer(c + 32).slice(11, c).clear());
    m.put("directSlice", c -> Unpooled.directBuffer(c + 32).slice(5, c).clear());
    m.put("composite1", c -> writable(c, Bufs.every(c, 1)));
    m.put("composite5", c -> writable(c, Bufs.every(c, 5)));
    m.put("nio", c -> Unpooled.wrappedBuffer(java.nio.ByteBuffer.allocate(Math.max(1, c))).clear());
    m.put("duplicate", c -> Unpooled.buffer(c).duplicate().clear());
    m.put("unreleasable", c -> Unpooled.unreleasableBuffer(Unpooled.buffer(c)));
    return m;
  }

  /** Encodes into b at writer index off (reader index ri) and checks everything around. */
  String encodeInto(Sut sut, Object o, byte[] exp, ByteBuf b, int ri, int off) {
    fill(b);
    int cap0 = b.capacity();
    b.setIndex(ri, off);
    b.markReaderIndex().markWriterIndex();
    int rc = b.refCnt();
    sut.encode(o, b);
    run.transitions.increment();
    if (b.readerIndex() != ri) return "encode moved the reader index from " + ri + " to " + b.readerIndex();
    if (b.writerIndex() - off != exp.length) return "encode advanced the writer index by " + (b.writerIndex() - off) + ", the message has " + exp.length + " bytes";
    if (b.refCnt() != rc) return "encode changed the reference count";
    byte[] got = Bufs.content(b, off, off + exp.length);
    String e = EValues.bytesDiff(exp, got);
    if (e != null) return "encoding differs from the one into a plain heap buffer: " + e;
    for (int i = 0; i < off; i++) if ((b.getByte(i) & 0xFF) != pat(i)) return "encode changed byte " + i + " before the message at " + off;
    for (int i = off + exp.length; i < cap0; i++) if ((b.getByte(i) & 0xFF) != pat(i)) return "encode changed byte " + i + " behind the message ending at " + (off + exp.length);
    int wi = b.writerIndex();
    b.resetReaderIndex();
    b.resetWriterIndex();
    if (b.readerIndex() != ri || b.writerIndex() != off) return "encode changed the buffer's marks";
    b.writerIndex(wi);
    return null;
  }
  String decodeFrom(Sut sut, Msg m, Rec exp, int len, byte[] all, ByteBuf b, int off, boolean overwrite) {
    int wi = b.writerIndex();
    b.markReaderIndex();
    b.markWriterIndex();
    int rc = b.refCnt();
    Object o = sut.mc(m).fresh();
    sut.decode(o, b);
    run.transitions.increment();
    if (b.readerIndex() - off != len) return "decode advanced the reader index by " + (b.readerIndex() - off) + ", the message has " + len + " bytes";
    if (b.writerIndex() != wi) return "decode moved the writer index";
    if (b.refCnt() != rc) return "decode changed the reference count from " + rc + " to " + b.refCnt();
    if (!Arrays.equals(all, Bufs.content(b, 0, all.length))) return "decode changed the buffer's content";
    b.setIndex(0, all.length);
    b.resetReaderIndex();
    b.resetWriterIndex();
    if (b.readerIndex() != off || b.writerIndex() != wi) return "decode changed the buffer's marks";
    String e = Rec.diff(exp, sut.fromObj(o), m.simple);
    if (e != null) return "decoding differs from the one from a plain heap buffer: " + e;
    if (overwrite) {
      if (!b.isReadOnly()) for (int i = 0; i < all.length; i++) b.setByte(i, 0x55);
      Bufs.free(b);
      e = Rec.diff(exp, sut.fromObj(o), m.simple);
      if (e != null) return "the decoded message changed with the buffer: " + e;
    }
    return null;
  }

  void c10() {
    LinkedHashMap<String, WMaker> wk = writables();
    LinkedHashMap<String, Bufs.Maker> rk = Bufs.readable();
    run.extra.put("encode_buffer_kinds", wk.size() + " + composite cut at every position + every insufficient fixed capacity");
    run.extra.put("decode_buffer_kinds", rk.size() + " + composite cut at every position");
    List<Gen.Base> bases = new ArrayList<>();
    for (Msg m : spec.msgs.values()) { bases.addAll(gen.bases(m)); bases.addAll(gen.shapes(m)); }
    run.extra.put("messages", spec.msgs.size());
    run.extra.put("base_values", bases.size());
    leaks(bases);
    if (!run.stop()) services();
    if (!run.stop()) positions(bases);
    run.parallel(bases, () -> Sut.fresh(spec), (sut, base) -> {
      Msg m = base.r.m;
      try {
        Object o = sut.toObj(base.r);
        ByteBuf plain = Unpooled.buffer(64);
        sut.encode(o, plain);
        byte[] exp = EValues.take(plain);
        int n = exp.length;
        run.state(Run.fp(m.cls.hashCode(), exp, 0, n));
        // the message itself: only computed fields may change
        Rec before = base.r, after = sut.fromObj(o);
        String e = onlyComputed(before, after, m.simple);
        if (e != null) run.violation(base.id + "/message", "encoding changed the message: " + e);
        Object dm = sut.mc(m).fresh();
        sut.decode(dm, plain);
        Rec dec = sut.fromObj(dm);
        for (Map.Entry<String, WMaker> k : wk.entrySet()) for (int[] at : new int[][] {{0, 0}, {0, 1}, {3, 7}, {64, 64}, {0, 255}}) for (int room = 0; room < 4; room++) {
          int off = at[1], cap = off + (room == 0 ? n : room == 1 ? n + 1 : room == 2 ? n + 300 : Math.max(0, n / 2));
          if (room == 3 && (k.getKey().endsWith("Fixed") || k.getKey().endsWith("Slice") || k.getKey().startsWith("composite") || k.getKey().equals("nio"))) continue; // cannot or need not grow
          final int fr = room;
          String key = base.id + "/enc/" + k.getKey() + "/at" + at[0] + "," + off + "/room" + fr;
          if (!run.want(key)) continue;
          run.begin(() -> key);
          ByteBuf b = k.getValue().make(cap);
          try { e = encodeInto(sut, o, exp, b, at[0], off); } catch (Sut.Broken x) { e = Sut.desc(x); }
          finally { Bufs.free(b); }
          run.traces.increment();
          if (e != null) { run.violation(key, e); break; }
        }
        boolean deep = base.id.contains("/s1") || base.id.contains("/over") || run.thorough;
        for (int cut = 0; cut <= n; cut++) {
          if (!deep && cut % 5 != 0 && cut > 16) continue;
          final int fc = cut;
          String key = base.id + "/enc/cut" + fc;
          if (!run.want(key)) continue;
          ByteBuf b = writable(n + 6, 3 + cut);
          try { e = encodeInto(sut, o, exp, b, 1, 3); } catch (Sut.Broken x) { e = Sut.desc(x); }
          finally { Bufs.free(b); }
          run.traces.increment();
          if (e != null) { run.violation(key, e); break; }
        }
        // growing while encoding: a buffer that is full after any number of bytes
        for (int room = 0; room < n; room++) {
          if (!deep && room % 5 != 0) continue;
          String key = base.id + "/enc/grow" + room;
          if (!run.want(key)) continue;
          ByteBuf b = Unpooled.buffer(2 + room);
          try { e = encodeInto(sut, o, exp, b, 0, 2); } catch (Sut.Broken x) { e = Sut.desc(x); }
          if (e == null) { // it may grow to exactly what is needed, and no further
            try { e = encodeInto(sut, o, exp, Unpooled.buffer(2 + room, 2 + n), 0, 2); } catch (Sut.Broken x) { e = Sut.desc(x); }
            run.transitions.increment();
          }
          if (e == null) { // fixed capacity too small: an exception, and nothing before the start is touched
            ByteBuf f = fill(Unpooled.buffer(2 + room, 2 + room)).setIndex(1, 2);
            try { sut.rawEncode(o, f); e = "encode into a buffer that is " + (n - room) + " bytes too small did not fail"; }
            catch (RuntimeException x) { if (f.readerIndex() != 1 || f.getByte(0) != (byte) pat(0) || f.getByte(1) != (byte) pat(1) || f.refCnt() != 1) e = "a failed encode changed the buffer outside its region"; }
            catch (Throwable x) { e = "encode into a full buffer threw " + x; }
            run.transitions.increment();
          }
          run.traces.increment();
          if (e != null) { run.violation(key, e); break; }
        }
        for (Map.Entry<String, Bufs.Maker> k : rk.entrySet()) for (int off : new int[] {0, 1, 6, 127}) for (int tail : new int[] {0, 9}) for (int stale : new int[] {0, 5}) {
          String key = base.id + "/dec/" + k.getKey() + "/off" + off + "/tail" + tail + "/stale" + stale;
          if (!run.want(key)) continue;
          run.begin(() -> key);
          byte[] all = new byte[off + n + tail + stale];
          for (int i = 0; i < all.length; i++) all[i] = (byte) pat(i);
          System.arraycopy(exp, 0, all, off, n);
          ByteBuf b = k.getValue().make(all, off, off + n + tail);
          try { e = decodeFrom(sut, m, dec, n, all, b, off, true); } catch (Sut.Broken x) { e = Sut.desc(x); }
          finally { Bufs.free(b); }
          run.traces.increment();
          if (e != null) { run.violation(key, e); break; }
        }
        for (int cut = 0; cut <= n; cut++) for (int cut2 = cut; cut2 <= (run.thorough ? n : cut); cut2 += 3) {
          String key = base.id + "/dec/cut" + cut + "," + cut2;
          if (!run.want(key)) continue;
          byte[] all = Arrays.copyOf(exp, n + 3);
          ByteBuf b = Bufs.pieces(all, cut, cut2).setIndex(0, n + 3);
          try { e = decodeFrom(sut, m, dec, n, all, b, 0, (cut & 7) == 0); } catch (Sut.Broken x) { e = Sut.desc(x); }
          finally { Bufs.free(b); }
          run.traces.increment();
          if (e != null) { run.violation(key, e); break; }
        }
      } catch (Sut.Broken t) { run.violation(base.id, Sut.desc(t)); }
      run.end();
    });
  }
  // ---- buffers that were used for long: start positions far in, little room behind -------------------
  static final int[] FAR = {0, 1, 9, 63, 64, 130, 257, 300, 513, 1025, 4097, 65537};
  void positions(List<Gen.Base> bases) {
    List<Gen.Base> some = new ArrayList<>();
    for (Gen.Base b : bases) if (b.id.contains("/s1") || run.thorough) some.add(b);
    int[] rooms = {0, 1, 2, 3, 4, 7, 8, 15, 16, 31, 32, 63, 100, 1000, -1, -2, -3};
    run.extra.put("far_positions", FAR.length + " reader positions x 3 writer positions x " + rooms.length + " amounts of room x 3 buffer kinds, and behind a decoded message");
    run.parallel(some, () -> Sut.fresh(spec), (sut, base) -> {
      Msg m = base.r.m;
      byte[] exp = Ref.encode(base.r);
      int n = exp.length;
      Object o = sut.toObj(base.r);
      Rec dec = Ref.decode(m, new Ref.In(exp, 0, n));
      for (int far : FAR) for (int gap : new int[] {0, 3, 200}) for (int room0 : rooms) {
        int room = room0 == -1 ? n : room0 == -2 ? n + 1 : room0 == -3 ? n - 1 : room0;
        if (room < 0 || far > 5000 && (room0 & 3) != 0) continue;
        for (int kind = 0; kind < 3; kind++) {
          String key = base.id + "/far" + far + "+" + gap + "/room" + room + "/" + kind;
          if (!run.want(key)) continue;
          run.begin(() -> key);
          String e;
          ByteBuf b = buffer(kind, far + gap + room);
          try { e = encodeInto(sut, o, exp, b, far, far + gap); } catch (Sut.Broken x) { e = Sut.desc(x); } finally { Bufs.free(b); }
          if (e == null) { // decode at the same place, with that much behind it and that much unused capacity
            byte[] all = new byte[far + n + (gap == 200 ? 40 : gap)];
            for (int i = 0; i < all.length; i++) all[i] = (byte) pat(i);
            System.arraycopy(exp, 0, all, far, n);
            ByteBuf c = buffer(kind, all.length + room).writeBytes(all).readerIndex(far);
            try { e = decodeFrom(sut, m, dec, n, all, c, far, false); } catch (Sut.Broken x) { e = Sut.desc(x); } finally { Bufs.free(c); }
          }
          run.traces.increment();
          if (e != null) { run.violation(key, e); return; }
        }
      }
      run.end();
    });
  }
  static ByteBuf buffer(int kind, int cap) { return kind == 0 ? Unpooled.buffer(cap) : kind == 1 ? Unpooled.directBuffer(Math.max(1, cap)) : PooledByteBufAllocator.DEFAULT.buffer(Math.max(1, cap)); }
  // ---- the checksum services ---------------------------------------------------------------------------
  void services() {
    Sut sut = Sut.fresh(spec);
    Sut.Sums sums = sut.sums();
    int[] lens = new int[70];
    for (int i = 0; i < lens.length; i++) lens[i] = i < 66 ? i : 255 + (i - 66) * 257;
    for (String alg : ESums.ALGS) for (int kind = 0; kind < 2; kind++) for (int len : lens) for (int off : new int[] {0, 5}) {
      String key = "service/" + alg + "/" + (kind == 0 ? "heap" : "direct") + "/" + off + "+" + len;
      if (!run.want(key)) continue;
      run.begin(() -> key);
      String e = null;
      try {
        Object svc = sums.get(alg);
        for (int rep = 0; rep < 3 && e == null; rep++) {
          Track t = new Track();
          long before = used();
          byte[] d = new byte[off + len + 3];
          for (int i = 0; i < d.length; i++) d[i] = (byte) (pat(i) + rep * 77);
          ByteBuf b = kind == 0 ? t.heapBuffer(d.length) : t.directBuffer(d.length);
          b.writeBytes(d).setIndex(off, off + len);
          Object r = sums.calc(svc, b);
          sums.verify(svc, b, r);
          sums.verify(svc, b, 99999);
          e = t.live(b, "computing and verifying a checksum");
          if (e == null && (b.readerIndex() != off || b.writerIndex() != off + len || !Arrays.equals(d, Bufs.content(b, 0, d.length)))) e = "computing or verifying a checksum changed the buffer";
          if (e == null && rep == 2 && used() > before) e = "computing or verifying a checksum left memory of the default allocators unreleased";
          run.transitions.add(3); run.traces.increment();
        }
      } catch (Throwable x) { e = Sut.desc(x); }
      if (e != null) { run.violation(key, e); break; }
    }
    run.end();
  }
  // ---- nothing allocated or retained outlives a call ----------------------------------------------
  /** Remembers every buffer it hands out. */
  static final class Track extends AbstractByteBufAllocator {
    final List<ByteBuf> out = new ArrayList<>();
    @Override protected ByteBuf newHeapBuffer(int c, int m) { ByteBuf b = new UnpooledHeapByteBuf(this, c, m); out.add(b); return b; }
    @Override protected ByteBuf newDirectBuffer(int c, int m) { ByteBuf b = new UnpooledDirectByteBuf(this, c, m); out.add(b); return b; }
    @Override public CompositeByteBuf compositeHeapBuffer(int n) { CompositeByteBuf b = new CompositeByteBuf(this, false, n); out.add(b); return b; }
    @Override public CompositeByteBuf compositeDirectBuffer(int n) { CompositeByteBuf b = new CompositeByteBuf(this, true, n); out.add(b); return b; }
    @Override public boolean isDirectBufferPooled() { return false; }
    String live(ByteBuf own, String when) {
      for (ByteBuf b : out) {
        if (b == own) { if (b.refCnt() != 1) return when + " left the caller's buffer with reference count " + b.refCnt(); }
        else if (b.refCnt() != 0) return when + " left a buffer of " + b.capacity() + " bytes unreleased";
      }
      return null;
    }
  }
  static long used() {
    return UnpooledByteBufAllocator.DEFAULT.metric().usedHeapMemory() + UnpooledByteBufAllocator.DEFAULT.metric().usedDirectMemory()
        + PooledByteBufAllocator.DEFAULT.pinnedHeapMemory() + PooledByteBufAllocator.DEFAULT.pinnedDirectMemory();
  }
  void leaks(List<Gen.Base> bases) {
    Sut sut = Sut.fresh(spec);
    sut.sums();
    for (Gen.Base base : bases) for (int kind = 0; kind < 2; kind++) {
      Msg m = base.r.m;
      byte[] w = Ref.encode(base.r);
      int n = w.length;
      for (int step = -1; step <= n; step++) { // -1: complete encode and decode; k: both fail after k bytes
        if (step > 8 && step < n - 8 && step % 7 != 0 && !(base.id.contains("/s1") && run.thorough)) continue;
        String key = base.id + "/leak/" + (kind == 0 ? "heap" : "direct") + "/" + (step < 0 ? "full" : step);
        if (!run.want(key)) continue;
        run.begin(() -> key);
        String e = null;
        try {
          long grown = 0; // what is allocated once and kept is no leak
          for (int rep = 0; rep < 3; rep++) {
            Object o = sut.toObj(base.r), p = sut.mc(m).fresh();
            long before = used();
            Track t = new Track();
            int room = step < 0 ? Integer.MAX_VALUE : step;
            ByteBuf b = kind == 0 ? t.heapBuffer(Math.min(16, room), room) : t.directBuffer(Math.min(16, room), room);
            try { sut.rawEncode(o, b); } catch (Exception x) { if (step < 0) throw new Sut.Broken("encode threw " + Sut.desc(x)); }
            e = t.live(b, "encode");
            Track u = new Track();
            ByteBuf c = kind == 0 ? u.heapBuffer(n + 4) : u.directBuffer(n + 4);
            c.writeBytes(w, 0, step < 0 ? n : step);
            try { sut.rawDecode(p, c); } catch (Exception x) { if (step < 0 || step == n) throw new Sut.Broken("decode threw " + Sut.desc(x)); }
            if (e == null) e = u.live(c, "decode");
            p.toString(); p.hashCode(); p.equals(o);
            if (e == null) e = u.live(c, "comparing and printing");
            grown = used() - before;
            if (e != null || grown <= 0) break;
          }
          if (e == null && grown > 0) e = "encode or decode left " + grown + " bytes of the default allocators unreleased each time";
          run.transitions.add(5); run.traces.add(2);
        } catch (Sut.Broken x) { e = Sut.desc(x); }
        catch (Throwable x) { e = Sut.desc(x); }
        if (e != null) { run.violation(key, e); if (run.stop()) return; break; }
      }
    }
    run.end();
  }
  static String onlyComputed(Rec a, Rec b, String path) {
    if (a == null || b == null || a.m != b.m) return Rec.diff(a, b, path);
    for (Field f : a.m.fields) {
      if (f.t.k == K.LEN || f.t.k == K.SUM) continue;
      String e = f.t.k == K.UNION ? onlyComputed((Rec) a.v[f.idx], (Rec) b.v[f.idx], path + "." + f.name) : Rec.diff(a.v[f.idx], b.v[f.idx], path + "." + f.name);
      if (e != null) return e;
    }
    return null;
  }

  // ---- C11 ------------------------------------------------------------------------------------------
  static final com.sun.management.ThreadMXBean TM = (com.sun.management.ThreadMXBean) ManagementFactory.getThreadMXBean();
  static final long MEM = 8L << 20;

  static final class Out { boolean ok; int rc; Throwable err; Rec partial; int ri, wi; long mem; }
  Out attempt(Sut sut, Msg m, ByteBuf b, boolean measure) {
    Out o = new Out();
    Object x = sut.mc(m).fresh();
    long a = measure ? TM.getThreadAllocatedBytes(Thread.currentThread().getId()) : 0;
    try { sut.rawDecode(x, b); o.ok = true; } catch (Throwable t) { o.err = t; }
    if (measure) o.mem = TM.getThreadAllocatedBytes(Thread.currentThread().getId()) - a;
    o.ri = b.readerIndex(); o.wi = b.writerIndex(); o.rc = b.refCnt();
    try { o.partial = sut.fromObj(x); } catch (Sut.Broken t) { o.partial = null; }
    run.transitions.increment();
    return o;
  }
  String mustFail(Out o, int wi, boolean measure, int size) {
    if (o.ok) return "a message was returned: " + o.partial;
    if (!(o.err instanceof Exception)) return "failed with " + Sut.desc(o.err) + ", an exception is expected";
    if (o.rc != 1) return "the failed decode left the buffer with reference count " + o.rc;
    if (o.wi != wi) return "the failed decode moved the writer index";
    if (o.ri > o.wi) return "the failed decode left the reader index behind the writer index";
    if (measure && o.mem > MEM + 200L * size) return "rejecting " + size + " bytes allocated " + o.mem + " bytes";
    return null;
  }
  static Rec refOrNull(Msg m, byte[] d, int len) {
    try { return Ref.decode(m, new Ref.In(d, 0, len)); } catch (Ref.Truncated | Ref.Unknown x) { return null; }
  }

  void c11() {
    List<Gen.Base> bases = new ArrayList<>();
    for (Msg m : spec.msgs.values()) {
      bases.addAll(gen.bases(m));
      for (int v = 0; v < gen.variants(m); v++) { // longer groups and texts
        Rec r = gen.base(m, 1, 1, v);
        boolean any = false;
        for (Gen.Slot s : Gen.slots(r, false, false)) {
          if (s.elem >= 0 || s.rec != r && m.isFrame()) continue;
          if (s.t.k == K.LIST) { s.set(gen.list(s.t, s.t.elem.k == K.OBJ ? 5 : 12, 3)); any = true; }
          if (s.t.k == K.DYN) { s.set(Gen.text(70, 3)); any = true; }
        }
        if (any) bases.add(new Gen.Base(r, m + "/long" + v));
      }
    }
    run.extra.put("base_values", bases.size());
    run.extra.put("truncation", "every strict prefix x {exact heap, heap with stale rest, heap with other stale bytes, direct with stale rest, composite per byte}");
    // (a) every strict prefix
    run.parallel(bases, () -> Sut.fresh(spec), (sut, base) -> {
      Msg m = base.r.m;
      byte[] w = Ref.encode(base.r);
      byte[] long2 = Arrays.copyOf(w, w.length + 600);
      for (int i = w.length; i < long2.length; i++) long2[i] = 'Z';
      for (int len = 0; len < w.length; len++) {
        if (refOrNull(m, w, len) != null) throw new IllegalStateException("prefix of " + m + " is a message");
        byte[] pre = Arrays.copyOf(w, len);
        byte[] other = long2.clone();
        for (int i = len; i < other.length; i++) other[i] = (byte) ~other[i];
        final int fl = len;
        Rec[] partial = new Rec[5];
        for (int kind = 0; kind < 5; kind++) {
          final int fk = kind;
          Supplier<String> key = () -> base.id + "/cut" + fl + "/k" + fk;
          if (run.only != null && !run.only.startsWith(base.id + "/cut" + fl + "/")) continue;
          run.begin(key);
          ByteBuf b;
          switch (kind) {
            case 0: b = Unpooled.wrappedBuffer(pre); break;
            case 1: b = Unpooled.wrappedBuffer(long2.clone()).setIndex(0, len); break;
            case 2: b = Unpooled.wrappedBuffer(other).setIndex(0, len); break;
            case 3: b = Unpooled.directBuffer(long2.length).writeBytes(long2).setIndex(0, len); break;
            default: if (len % 3 != 0 && !run.thorough) continue; b = Bufs.pieces(long2, Bufs.every(Math.min(long2.length, len + 4), 1)).setIndex(0, len);
          }
          Out o = attempt(sut, m, b, kind == 0);
          Bufs.free(b);
          partial[kind] = o.partial;
          String e = mustFail(o, len, kind == 0, len);
          if (e == null && kind > 0) { String d = Rec.diff(partial[0], o.partial, m.simple); if (d != null) e = "the failed decode used bytes beyond the readable ones: " + d; }
          run.traces.increment();
          if (e != null) { run.violation(key.get(), "first " + fl + " of " + w.length + " bytes: " + e); if (run.stop()) return; break; }
        }
        run.state(Run.fp(m.cls.hashCode(), w, 0, len));
      }
      run.end();
    });
    // (b) hostile length prefixes
    run.parallel(bases, () -> Sut.fresh(spec), (sut, base) -> {
      Msg m = base.r.m;
      byte[] w = Ref.encode(base.r);
      for (long[] p : Ref.prefixes(base.r)) {
        if (p[2] == 2) continue; // the frame length is informative
        int bits = (int) p[1] * 8;
        TreeSet<Long> vals = new TreeSet<>();
        long rest = w.length - p[0] - p[1];
        for (int d = 0; d <= 12; d++) { vals.add(rest + d); vals.add(p[4] + d); }
        for (int k = 4; k <= bits; k++) for (int d = -2; d <= 2; d++) vals.add((1L << k) + d);
        for (int x = 0; x < 256; x++) { vals.add((long) x << bits - 8); vals.add(((long) x << bits - 8) | (1L << bits - 8) - 1); }
        vals.add(0xFFFFFFFFL); vals.add(0xFFFF8000L); vals.add(0x80008000L);
        for (long x : vals) {
          if (x < 0 || x >= 1L << bits) continue;
          String key = base.id + "/len@" + p[0] + "=" + x;
          if (!run.want(key)) continue;
          byte[] d = w.clone();
          for (int i = 0; i < p[1]; i++) d[(int) p[0] + i] = (byte) (x >>> (8 * (p[3] == 1 ? i : p[1] - 1 - i)));
          judge(sut, m, d, key);
        }
      }
      run.end();
    });
    // (c) unknown codes: every 1- and 2-bit change of every code, and (d) every byte changed: a wrong message is never returned
    int[] few = {0x00, 0x01, 0x7F, 0x80, 0xFE, 0xFF};
    run.parallel(bases, () -> Sut.fresh(spec), (sut, base) -> {
      Msg m = base.r.m;
      byte[] w = Ref.encode(base.r);
      for (int p = 0; p < w.length; p++) for (int x : few) {
        String key = base.id + "/byte@" + p + "=" + x;
        if (!run.want(key)) continue;
        byte[] d = w.clone();
        d[p] = (byte) x;
        judge(sut, m, d, key);
      }
      run.end();
    });
    // (e) every short input
    List<Msg> ms = new ArrayList<>(spec.msgs.values());
    int[] al = {0, 1, 2, 0x20, 0x30, 0x31, 0x3A, 0x41, 0x7F, 0x80, 0x81, 0xC3, 0xFE, 0xFF};
    run.parallel(ms, () -> Sut.fresh(spec), (sut, m) -> {
      for (int len = 0; len <= 4; len++) {
        int base = len <= 1 ? 256 : al.length;
        int n = (int) Math.pow(base, len);
        if (len == 4 && !run.thorough) continue;
        for (int x = 0; x < n; x++) {
          byte[] d = new byte[len];
          for (int y = x, i = 0; i < len; i++) { d[i] = (byte) (len <= 1 ? y % base : al[y % base]); y /= base; }
          String key = m + "/short/" + EValues.hex(d, 8);
          if (!run.want(key)) continue;
          judge(sut, m, d, key);
        }
      }
      run.end();
    });
    // (f) long inputs of one byte value: counts and lengths that never end
    run.parallel(ms, () -> Sut.fresh(spec), (sut, m) -> {
      for (int len : new int[] {1, 17, 64, 200, 1000, 70000}) for (int v : al) {
        String key = m + "/fill/" + len + "x" + v;
        if (!run.want(key)) continue;
        byte[] d = new byte[len];
        Arrays.fill(d, (byte) v);
        judge(sut, m, d, key);
      }
      run.end();
    });
  }
  /** Decode must agree with the reference: the reference's message, or an exception. */
  void judge(Sut sut, Msg m, byte[] d, String key) {
    run.begin(() -> key);
    Rec exp = refOrNull(m, d, d.length);
    run.state(Run.fp(m.cls.hashCode(), d, 0, d.length));
    Out o = attempt(sut, m, Unpooled.wrappedBuffer(d), true);
    String e = null;
    if (exp == null) e = mustFail(o, d.length, true, d.length);
    else if (!o.ok) { if (!(o.err instanceof Exception)) e = "failed with " + Sut.desc(o.err); } // what a complete message means is C03's business
    run.traces.increment();
    if (e != null) run.violation(key, e + " | bytes " + EValues.hex(d, 120));
  }
}
