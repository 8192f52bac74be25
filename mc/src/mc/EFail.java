package mc;

import io.netty.buffer.*;
import java.io.IOException;
import java.lang.reflect.Proxy;
import java.util.*;
import java.util.function.*;
import mc.Spec.*;

/** C20: an encode that fails at any point leaves nothing behind. */
public final class EFail {
  final Run run; final Spec spec; final Gen gen;
  EFail(Run run, Spec spec, Harvest hv) { this(run, spec, new Gen(spec, hv, run.thorough), 5, 2); }
  private EFail(Run run, Spec spec, Gen gen, int at, int rd) { this.run = run; this.spec = spec; this.gen = gen; AT = at; RD = rd; }
  String where() { return AT == 5 ? "" : "/at" + AT; }

  /** A heap buffer whose largest capacity can be changed. */
  static final class Room extends UnpooledHeapByteBuf {
    Room(int cap, int max) { super(UnpooledByteBufAllocator.DEFAULT, cap, max); }
    void max(int m) { maxCapacity(m); }
  }
  /** A direct buffer whose largest capacity can be changed. */
  static final class DRoom extends UnpooledDirectByteBuf {
    DRoom(int cap, int max) { super(UnpooledByteBufAllocator.DEFAULT, cap, max); }
    void max(int m) { maxCapacity(m); }
  }
  static void max(ByteBuf b, int m) { if (b instanceof Room) ((Room) b).max(m); else ((DRoom) b).max(m); }

  final int AT, RD; // where the encode starts in the buffer, and the reader index
  /** What bodies and services fail with. */
  static final Class<?>[] FAILURES = {RuntimeException.class, NullPointerException.class, IllegalArgumentException.class, IndexOutOfBoundsException.class, IllegalStateException.class,
    UnsupportedOperationException.class, ClassCastException.class, ArithmeticException.class, java.io.UncheckedIOException.class, io.netty.util.IllegalReferenceCountException.class, StackOverflowError.class, AssertionError.class, OutOfMemoryError.class};
  static Throwable failure(Class<?> c) {
    try {
      return c == java.io.UncheckedIOException.class ? new java.io.UncheckedIOException(new IOException("refused")) : (Throwable) c.getConstructor().newInstance();
    } catch (ReflectiveOperationException e) { throw new IllegalStateException(e); }
  }

  /** Reference results of one message value, taken in a library instance in which nothing ever failed. */
  static final class V { Rec r; byte[] bytes; Rec after; }
  V of(Sut clean, Rec r) {
    V v = new V();
    v.r = r;
    Object o = clean.toObj(r);
    ByteBuf b = Unpooled.buffer(64);
    clean.encode(o, b);
    v.bytes = EValues.take(b);
    v.after = clean.fromObj(o);
    return v;
  }

  /** One failing encode of o into b from writer index AT. Returns what is wrong, or null. */
  String failing(Sut sut, Object o, Rec r, ByteBuf b, String why) {
    for (int i = 0; i < AT; i++) b.setByte(i, 0x70 + i);
    b.setIndex(RD, AT);
    int rc = b.refCnt();
    Throwable t = null;
    try { sut.rawEncode(o, b); } catch (Throwable x) { t = x; }
    run.transitions.increment();
    if (t == null) return "encode returned normally although " + why;
    if (!(t instanceof Exception)) return "encode failed with " + Sut.desc(t) + ", an exception is expected";
    if (b.readerIndex() != RD) return "a failed encode moved the reader index";
    if (b.refCnt() != rc) return "a failed encode changed the reference count";
    if (b.writerIndex() < AT) return "a failed encode moved the writer index in front of its start";
    for (int i = 0; i < AT; i++) if (b.getByte(i) != (byte) (0x70 + i)) return "a failed encode changed byte " + i + " in front of its start";
    Rec now = sut.fromObj(o);
    String e = EBuffers.onlyComputed(r, now, r.m.simple);
    return e == null ? null : "a failed encode changed the message: " + e;
  }
  /** Encoding afterwards: the same object and others, into the same and other buffers. */
  String after(Sut sut, Object o, V v, ByteBuf same, V... others) {
    String e;
    if (same != null) {
      max(same, Integer.MAX_VALUE);
      same.writerIndex(AT);
      sut.encode(o, same);
      e = EValues.bytesDiff(v.bytes, Bufs.content(same, AT, same.writerIndex()));
      if (e != null) return "encoding again into the same buffer: " + e;
    }
    ByteBuf b = Unpooled.buffer(64);
    if (o != null) {
      sut.encode(o, b);
      e = EValues.bytesDiff(v.bytes, EValues.take(b));
      if (e != null) return "encoding the message again: " + e;
      e = Rec.diff(v.after, sut.fromObj(o), v.r.m.simple);
      if (e != null) return "message after encoding it again: " + e;
    }
    for (V w : others) {
      b.clear();
      Object x = sut.toObj(w.r);
      sut.encode(x, b);
      e = EValues.bytesDiff(w.bytes, EValues.take(b));
      if (e == null) e = Rec.diff(w.after, sut.fromObj(x), w.r.m.simple);
      if (e != null) return "encoding another message (" + w.r.m.simple + "): " + e;
    }
    run.transitions.add(2 + others.length);
    return null;
  }

  void c20() {
    List<Gen.Base> bases = new ArrayList<>();
    for (Msg m : spec.msgs.values()) { bases.addAll(gen.bases(m)); bases.addAll(gen.shapes(m)); }
    run.extra.put("messages", spec.msgs.size());
    run.extra.put("base_values", bases.size());
    run.extra.put("fault_points", "every insufficient capacity of heap and direct buffers, pairs of them, every missing nested message or group element, body and checksum service failing");
    Map<String, List<Msg>> byProto = new TreeMap<>();
    for (Msg m : spec.msgs.values()) byProto.computeIfAbsent(m.proto(), k -> new ArrayList<>()).add(m);
    run.parallel(bases, () -> new Sut[] {Sut.fresh(spec), Sut.fresh(spec)}, (ss, base) -> {
      Sut sut = ss[0], clean = ss[1];
      Msg m = base.r.m;
      try {
        V v = of(clean, base.r);
        List<Msg> fam = byProto.get(m.proto());
        V[] others = {of(clean, gen.base(m, 2, 5, m.union() == null ? -1 : 0)), of(clean, gen.base(fam.get((fam.indexOf(m) + 1) % fam.size()), 1))};
        rooms(sut, base, v, others);
        // started far into the buffer, with everything read, little or much of it
        if (base.id.contains("/s1") || base.id.contains("/s0")) for (int rd : new int[] {100, 130, 0}) new EFail(run, spec, gen, 130, rd).rooms(sut, base, v, others);
        nobody(sut, clean, base, others);
        missing(sut, clean, base, others);
        if (m.union() != null && base.id.contains("/s1")) bodies(sut, base, v, others);
        for (Field f : m.fields) if (f.t.k == K.SUM) sums(base, f, v, others);
      } catch (Sut.Broken t) { run.violation(base.id, Sut.desc(t)); }
      run.end();
    });
  }
  /** A frame without a body. */
  void nobody(Sut sut, Sut clean, Gen.Base base, V[] others) {
    Field u = base.r.m.union();
    if (u == null || !base.id.contains("/s1")) return;
    Rec r = base.r.copy();
    r.v[u.idx] = null;
    V v;
    try { v = of(clean, r); } catch (Sut.Broken t) { return; } // cannot be encoded at all
    rooms(sut, new Gen.Base(r, base.id + "/nobody"), v, others);
  }
  void rooms(Sut sut, Gen.Base base, V v, V[] others) {
    int n = v.bytes.length;
    boolean pairs = AT == 5 && !base.r.m.isFrame() && (run.thorough || base.id.contains("/s1") || base.id.contains("/over"));
    for (int room = 0; room < n; room++) for (int kind = 0; kind < 2; kind++) {
      final int fr = room, fk = kind;
      Supplier<String> key = () -> base.id + where() + (AT == 5 ? "" : "r" + RD) + "/room" + fr + "/" + (fk == 0 ? "heap" : "direct");
      if (run.only != null && !run.only.startsWith(key.get())) continue;
      run.begin(key);
      if (run.want(key)) {
        String e;
        ByteBuf b = kind == 0 ? new Room(AT + room, AT + room) : new DRoom(AT + room, AT + room);
        try {
          Object o = sut.toObj(base.r);
          e = failing(sut, o, base.r, b, "the buffer takes " + room + " of its " + n + " bytes only");
          if (e == null) e = after(sut, o, v, b, others);
        } catch (Sut.Broken x) { e = Sut.desc(x); }
        Bufs.free(b);
        run.states.increment(); run.traces.increment();
        if (e != null) run.violation(key.get(), e);
      }
      if (pairs && kind == 0) for (int second = room % (run.thorough ? 1 : 5); second < n; second += run.thorough ? 1 : 5) {
        final int f2 = second;
        Supplier<String> k2 = () -> base.id + where() + "/room" + fr + "/heap/then" + f2;
        if (!run.want(k2)) continue;
        String e;
        try {
          Object o = sut.toObj(base.r);
          e = failing(sut, o, base.r, new Room(AT + room, AT + room), "the buffer is too small");
          if (e == null) e = failing(sut, o, base.r, new Room(AT + second, AT + second), "the second buffer is too small");
          if (e == null) e = after(sut, o, v, null);
        } catch (Sut.Broken x) { e = Sut.desc(x); }
        run.states.increment(); run.traces.increment();
        if (e != null) run.violation(k2.get(), e);
      }
      if (run.stop()) return;
    }
  }
  /** A nested message or group element that is missing: if that cannot be encoded, nothing stays behind. */
  void missing(Sut sut, Sut clean, Gen.Base base, V[] others) {
    for (Gen.Slot s : Gen.slots(base.r, false, false)) {
      Object old = s.get();
      if (s.t.k == K.OBJ) s.set(null);
      else if (s.t.k == K.LIST && old != null && !((List<?>) old).isEmpty()) { List<Object> l = new ArrayList<>((List<?>) old); l.set(l.size() - 1, null); s.set(l); }
      else continue;
      String key = base.id + "/missing/" + s.path, e = null;
      if (run.want(key)) {
        run.begin(() -> key);
        try {
          Object o = sut.toObj(base.r);
          ByteBuf b = new Room(AT + 64, Integer.MAX_VALUE);
          boolean can = true;
          try { clean.rawEncode(clean.toObj(base.r), Unpooled.buffer(64)); } catch (Throwable t) { can = false; }
          if (!can) {
            e = failing(sut, o, base.r, b, "a part is missing");
            s.set(old);
            if (e == null) { sut.fill(o, base.r); V v = of(clean, base.r); e = after(sut, o, v, b, others); }
          }
        } catch (Sut.Broken x) { e = Sut.desc(x); }
        run.states.increment(); run.traces.increment();
        if (e != null) run.violation(key, e);
      }
      s.set(old);
    }
  }
  /** A body of the caller's own that writes some bytes and fails. */
  void bodies(Sut sut, Gen.Base base, V v, V[] others) {
    Msg m = base.r.m;
    for (int k : new int[] {0, 1, 2, 3, 7, 40, 300}) for (Class<?> fc : FAILURES) {
      Throwable boom = failure(fc);
      if (k != 0 && k != 7 && fc != RuntimeException.class) continue;
      String key = base.id + "/body" + k + fc.getSimpleName(), e;
      if (!run.want(key)) continue;
      run.begin(() -> key);
      try {
        Object bad = Proxy.newProxyInstance(sut.cl, new Class<?>[] {sut.codec}, (p, me, a) -> {
          switch (me.getName()) {
            case "encode": ((ByteBuf) a[0]).writeZero(k); throw boom; // every kind of failure
            case "hashCode": return 1;
            case "equals": return p == a[0];
            case "toString": return "bad";
            default: throw new UnsupportedOperationException(me.getName());
          }
        });
        Object o = sut.toObj(base.r), good = sut.mc(m).get(o, m.union().idx);
        sut.mc(m).set(o, m.union().idx, bad);
        ByteBuf b = new Room(AT, Integer.MAX_VALUE);
        for (int i = 0; i < AT; i++) b.setByte(i, 0x70 + i);
        b.setIndex(RD, AT);
        e = null;
        try { sut.rawEncode(o, b); e = "encode returned normally although the body failed"; }
        catch (Throwable t) { /* as expected */ }
        if (e == null && b.readerIndex() != RD) e = "a failed encode moved the reader index";
        for (int i = 0; i < AT && e == null; i++) if (b.getByte(i) != (byte) (0x70 + i)) e = "a failed encode changed byte " + i + " in front of its start";
        if (e == null && sut.mc(m).get(o, m.union().idx) != bad) e = "a failed encode replaced the body";
        sut.mc(m).set(o, m.union().idx, good);
        if (e == null) e = after(sut, o, v, b, others);
      } catch (Sut.Broken x) { e = Sut.desc(x); }
      run.states.increment(); run.traces.increment();
      if (e != null) run.violation(key, e);
    }
  }
  /** The checksum service fails at its n-th use: the exception reaches the caller and nothing stays behind. */
  void sums(Gen.Base base, Field f, V v, V[] others) {
    for (int nth = 0; nth < 3; nth++) for (Class<?> fc : FAILURES) {
      Throwable boom = failure(fc);
      if (nth != 0 && fc != RuntimeException.class) continue;
      String key = base.id + "/service" + nth + fc.getSimpleName(), e = null;
      if (!run.want(key)) continue;
      if (!base.id.contains("/s1")) continue;
      run.begin(() -> key);
      try {
        Sut sut = Sut.fresh(spec);
        Sut.Sums s = sut.sums();
        int[] n = {nth};
        try {
          s.remove(f.t.ref);
          s.registry(s.custom(f.t.ref, d -> { if (n[0]-- == 0) Sut.Sums.<RuntimeException>raise(boom); return Ref.checksum(f.t.ref, d, 0, d.length); }));
        } catch (Throwable t) { throw new Sut.Broken("checksum registry: " + t, t); }
        Object o = sut.toObj(base.r);
        int fails = 0;
        for (int i = 0; i < 8 && fails == 0 && e == null; i++) {
          ByteBuf b = new Room(AT + 16, Integer.MAX_VALUE);
          for (int j = 0; j < AT; j++) b.setByte(j, 0x70 + j);
          b.setIndex(RD, AT);
          try {
            sut.rawEncode(o, b);
            if (i >= 3) { e = "the failure of the checksum service did not reach the caller"; break; }
            e = EValues.bytesDiff(v.bytes, Bufs.content(b, AT, b.writerIndex()));
            if (e == null) run.transitions.increment();
          } catch (Throwable t) {
            fails++;
            if (b.readerIndex() != RD) e = "a failed encode moved the reader index";
            for (int j = 0; j < AT && e == null; j++) if (b.getByte(j) != (byte) (0x70 + j)) e = "a failed encode changed byte " + j + " in front of its start";
            if (e == null) { String d = EBuffers.onlyComputed(base.r, sut.fromObj(o), base.r.m.simple); if (d != null) e = "a failed encode changed the message: " + d; }
            if (e == null) e = after(sut, o, v, b, others);
          }
        }
      } catch (Sut.Broken x) { e = Sut.desc(x); }
      run.states.increment(); run.traces.increment();
      if (e != null) run.violation(key, e);
    }
  }
}
