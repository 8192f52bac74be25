package mc;

import io.netty.buffer.*;
import java.lang.ref.Reference;
import java.lang.reflect.Array;
import java.lang.reflect.Field;
import java.lang.reflect.Modifier;
import java.nio.file.*;
import java.util.*;
import java.util.function.*;
import java.util.stream.*;
import mc.Spec.K;
import mc.Spec.Msg;
import mc.Spec.Registry;

/** C22: what the library itself keeps reachable does not grow with what it has handled. */
public final class ERetain {
  final Run run; final Spec spec; final Gen gen; final Harvest hv;
  ERetain(Run run, Spec spec, Harvest hv) { this.run = run; this.spec = spec; this.hv = hv; gen = new Gen(spec, hv, run.thorough); }

  // ---- the monitor: size of the object graph behind static fields, thread locals and given roots -------
  static final sun.misc.Unsafe U;
  static { try { Field f = sun.misc.Unsafe.class.getDeclaredField("theUnsafe"); f.setAccessible(true); U = (sun.misc.Unsafe) f.get(null); } catch (ReflectiveOperationException e) { throw new ExceptionInInitializerError(e); } }
  static final Object NO = new Object();
  static Object read(Object o, Field f) {
    try {
      Class<?> d = f.getDeclaringClass();
      if (!d.isHidden() && !d.isRecord()) return U.getObject(o, U.objectFieldOffset(f));
      f.setAccessible(true);
      return f.get(o);
    } catch (Exception e) { return NO; }
  }
  static final ClassValue<Field[]> FIELDS = new ClassValue<>() {
    @Override protected Field[] computeValue(Class<?> c) {
      List<Field> l = new ArrayList<>();
      for (Class<?> x = c; x != null && x != Reference.class; x = x.getSuperclass())
        for (Field f : x.getDeclaredFields()) if (!Modifier.isStatic(f.getModifiers()) && !f.getType().isPrimitive()) l.add(f);
      return l.toArray(new Field[0]);
    }
  };
  static boolean opaque(Object o) {
    if (o instanceof Class || o instanceof ClassLoader || o instanceof Thread || o instanceof Number || o instanceof Character || o instanceof Boolean ) return true;
    String n = o.getClass().getName();
    return n.startsWith("mc.") || n.startsWith("io.netty.") && !n.endsWith("InternalThreadLocalMap") && !(o instanceof ByteBuf) || n.startsWith("java.lang.invoke.") || n.startsWith("java.lang.reflect.") || n.startsWith("java.lang.Module") || n.startsWith("jdk.internal.");
  }
  /** One library instance with all its classes initialised, and the roots of its state. */
  final class Lib {
    final Sut sut = Sut.fresh(spec);
    final List<Object[]> statics = new ArrayList<>();
    final Field tl, itl;
    Lib() {
      try {
        Path root = Paths.get(System.getProperty("mc.classes"));
        List<String> names;
        try (Stream<Path> s = Files.walk(root)) { names = s.map(p -> root.relativize(p).toString()).filter(n -> n.endsWith(".class")).map(n -> n.substring(0, n.length() - 6).replace('/', '.')).sorted().collect(Collectors.toList()); }
        for (String n : names) {
          Class<?> c;
          try { c = Class.forName(n, true, sut.cl); } catch (Throwable t) { throw new Sut.Broken("class " + n + " does not initialise: " + t, t); }
          for (Field f : c.getDeclaredFields()) if (Modifier.isStatic(f.getModifiers()) && !f.getType().isPrimitive()) statics.add(new Object[] {U.staticFieldBase(f), U.staticFieldOffset(f)});
        }
        tl = Thread.class.getDeclaredField("threadLocals"); itl = Thread.class.getDeclaredField("inheritableThreadLocals");
      } catch (java.io.IOException | ReflectiveOperationException e) { throw new RuntimeException(e); }
    }
    long size(Object... more) {
      ArrayDeque<Object> todo = new ArrayDeque<>();
      for (Object[] s : statics) { Object o = U.getObject(s[0], (Long) s[1]); if (o != null) todo.add(o); }
      for (Field f : new Field[] {tl, itl}) { Object o = read(Thread.currentThread(), f); if (o != null && o != NO) todo.add(o); }
      for (Object o : more) if (o != null) todo.add(o);
      Set<Object> seen = Collections.newSetFromMap(new IdentityHashMap<>());
      long n = System.getProperties().size();
      while (!todo.isEmpty()) {
        Object o = todo.poll();
        if (!seen.add(o)) continue;
        n++;
        if (o instanceof String) { n += ((String) o).length() / 32; continue; }
        Class<?> c = o.getClass();
        if (c.isArray()) {
          if (c.getComponentType().isPrimitive()) { n += Array.getLength(o) / 32; continue; }
          for (Object e : (Object[]) o) if (e != null) todo.add(e);
          continue;
        }
        if (opaque(o)) continue;
        if (o instanceof WeakHashMap) ((WeakHashMap<?, ?>) o).size();
        for (Field f : FIELDS.get(c)) { Object x = read(o, f); if (x != null && x != NO) todo.add(x); }
      }
      return n;
    }
  }

  // ---- values: the i-th of a sequence of different ones of the same shape -----------------------------
  static String txt(int i, int n, int style) {
    StringBuilder b = new StringBuilder();
    String d = Integer.toString(100_000_000 + i).substring(1);
    if (style == 2 && n > 4) b.append("\u00e9 ");
    for (int k = Math.max(0, 8 - n); k < 8 && b.length() < n; k++) b.append(d.charAt(k));
    if (style == 1) while (b.length() < n) b.append((char) ('a' + b.length() % 26));
    return b.toString();
  }
  static void vary(Rec r, int i, int style, Gen.Slot keep) {
    for (Gen.Slot s : Gen.slots(r, false, true)) {
      if (keep != null && s.rec == keep.rec && s.idx == keep.idx) continue;
      switch (s.t.k) {
        case INT: case LEN: case SUM: s.set(Ref.box(style == 0 ? i : i * 0x9E3779B97F4A7C15L, s.t.bits)); break;
        case FLT: s.set(s.t.bits == 32 ? (Object) (float) (i + 0.5) : (Object) (i + 0.25)); break;
        case FIX: s.set(txt(i, style == 0 ? Math.min(8, s.t.width) : style == 1 ? s.t.width : i % (s.t.width + 1), style)); break;
        case DYN: s.set(txt(i, style == 0 ? 8 : style == 1 ? 40 : i % 64, style)); break;
        default:
      }
    }
  }

  interface Step { void at(int i) throws Throwable; }
  /** Repeats a step with ever new data; the size has to stop growing. */
  String steady(Lib lib, Step st, Object... more) throws Throwable {
    int n = 0, small = run.thorough ? 1000 : 48;
    long[] g = new long[3];
    for (int p = 0; p < 3; p++) { for (int k = 0; k < small; k++) st.at(n++); g[p] = lib.size(more); }
    run.transitions.add(n);
    if (g[1] <= g[0] || g[2] <= g[1]) return null;
    synchronized (BUDGET) {
      if (BUDGET[0] <= 0) { run.cap("budget for scenarios whose state grows at first"); return null; }
      long t0 = System.nanoTime();
      try { return sustained(lib, st, n, 3 * small, g[2], more); } finally { BUDGET[0] -= System.nanoTime() - t0; }
    }
  }
  /** Time for telling a cache that fills up from growth without end, one scenario at a time. */
  final long[] BUDGET = new long[1];
  String sustained(Lib lib, Step st, int n, int before, long held, Object[] more) throws Throwable {
    if (run.stop()) return null;
    long last = -1;
    int rising = 0, still = 0;
    for (int round = 1; round <= 8; round++) {
      long t0 = System.nanoTime();
      int k = 0;
      for (; k < 20000 && ((k & 63) != 0 || System.nanoTime() - t0 < 8e9); k++) st.at(n++);
      run.transitions.add(k);
      long s = settled(lib, more);
      if (last >= 0 && s <= last) { rising = 0; if (++still == 2) return null; } else if (last >= 0) rising++;
      last = s;
    }
    return rising >= 3 ? "after " + n + " different ones the library holds " + last + " objects, after " + before + " it held " + held + ", and the number keeps growing" : null;
  }
  /** The size once weakly held entries are gone. */
  long settled(Lib lib, Object[] more) throws InterruptedException {
    long s = Long.MAX_VALUE;
    for (int i = 0; i < 3; i++) { System.gc(); Thread.sleep(15); s = Math.min(s, lib.size(more)); Thread.sleep(5); s = Math.min(s, lib.size(more)); }
    return s;
  }
  void scenario(Lib lib, String key, Supplier<Object[]> more, Step st) {
    if (!run.want(key)) return;
    run.begin(() -> key);
    try {
      String e = steady(lib, st, more == null ? new Object[0] : more.get());
      if (e != null) run.violation(key, e);
    } catch (Sut.Broken t) { run.violation(key, Sut.desc(t)); }
    catch (Throwable t) { run.violation(key, "threw " + Sut.desc(t)); }
    run.end();
    run.states.increment(); run.traces.increment();
  }

  void c22() {
    run.hangCpuSecs = 300;
    run.maxViol = 2;
    BUDGET[0] = (run.thorough ? 600 : 150) * 1_000_000_000L;
    List<Object[]> work = new ArrayList<>();
    for (Msg m : spec.msgs.values()) for (int v = 0; v < gen.variants(m); v++) work.add(new Object[] {m, v});
    run.extra.put("messages_and_variants", work.size());
    run.parallel(work, Lib::new, (lib, it) -> message(lib, (Msg) it[0], (Integer) it[1]));
    List<Registry> pub = new ArrayList<>();
    for (Registry r : spec.regs) if (r.isPublic()) pub.add(r);
    run.extra.put("registries", pub.size());
    run.parallel(pub, Lib::new, this::registry);
    if (!run.stop()) checksums(new Lib());
    run.extra.put("repetitions", "3 x " + (run.thorough ? 1000 : 48) + " different values per scenario; where the state still grew, up to 160000");
  }

  /** All groups of the message with n elements. */
  Rec grown(Msg m, int v, int n) {
    Rec r = gen.base(m, 1, 1, v);
    for (Gen.Slot s : Gen.slots(r, false, false)) {
      if (s.t.k != K.LIST || s.elem >= 0) continue;
      List<Object> l = new ArrayList<>();
      for (int i = 0; i < n; i++) l.add(gen.val(s.t.elem, 1, i));
      s.set(l);
    }
    return r;
  }
  void message(Lib lib, Msg m, int v) {
    Sut sut = lib.sut;
    String id = m + (m.union() == null ? "" : "/v" + v);
    ByteBuf out = Unpooled.buffer(1 << 16);
    for (int style = 0; style < 4; style++) {
      final int fs = style;
      Rec[] rs = {gen.base(m, 1, 1, v)};
      if (style == 3) { rs = new Rec[5]; for (int i = 0; i < 5; i++) rs[i] = grown(m, v, i); }
      final Rec[] rf = rs;
      final Object[] prev = new Object[1];
      String k = id + "/t" + style;
      scenario(lib, k + "/enc", null, i -> { Rec r = rf[i % rf.length]; vary(r, i, fs, null); out.clear(); sut.encode(sut.toObj(r), out); });
      scenario(lib, k + "/dec", null, i -> { Rec r = rf[i % rf.length]; vary(r, i, fs, null); sut.decode(sut.mc(m).fresh(), Unpooled.wrappedBuffer(Ref.encode(r))); });
      scenario(lib, k + "/look", null, i -> { Rec r = rf[i % rf.length]; vary(r, i, fs, null); Object o = sut.toObj(r), p = sut.toObj(r); o.hashCode(); o.equals(p); o.toString(); o.equals(null); o.equals("x"); o.equals(prev[0]); prev[0] = o; sut.fromObj(o); });
      scenario(lib, k + "/trunc", null, i -> { Rec r = rf[i % rf.length]; vary(r, i, fs, null); byte[] d = Ref.encode(r); if (d.length > 0) try { sut.rawDecode(sut.mc(m).fresh(), Unpooled.wrappedBuffer(d, 0, i % d.length)); } catch (Exception e) { /* rejected */ } });
      scenario(lib, k + "/full", null, i -> { Rec r = rf[i % rf.length]; vary(r, i, fs, null); int n = Ref.encode(r).length; if (n > 0) try { sut.rawEncode(sut.toObj(r), Unpooled.buffer(i % n, i % n)); } catch (Exception e) { /* refused */ } });
      Object one = sut.toObj(rf[0]);
      scenario(lib, k + "/reuse", () -> new Object[] {one}, i -> { Rec r = rf[i % rf.length]; vary(r, i, fs, null); sut.fill(one, r); out.clear(); sut.encode(one, out); sut.decode(one, out); one.toString(); one.hashCode(); sut.decode(one, Unpooled.wrappedBuffer(Ref.encode(r))); });
      scenario(lib, k + "/retry", () -> new Object[] {one}, i -> { Rec r = rf[i % rf.length]; vary(r, i, fs, null); byte[] d = Ref.encode(r); if (d.length > 0) try { sut.rawDecode(one, Unpooled.wrappedBuffer(d, 0, i % d.length)); } catch (Exception e) { /* rejected */ } sut.decode(one, Unpooled.wrappedBuffer(d)); });
      if (run.stop()) return;
    }
    // absent parts
    { Rec r = gen.base(m, 0, 1, v); Rec full = gen.base(m, 1, 1, v);
      List<Spec.Field> fs = m.fields;
      scenario(lib, id + "/absent", null, i -> { vary(r, i, 0, null); for (Spec.Field f : fs) if (f.t.k != K.UNION && f.t.k != K.INT && (m.union() == null || f.idx != m.union().t.disc)) r.v[f.idx] = i % fs.size() == f.idx ? gen.base(m, 0, 1, v).v[f.idx] : full.v[f.idx]; try { sut.rawEncode(sut.toObj(r), out.clear()); } catch (Exception e) { /* absent nested message */ } });
    }
    // one field at a value the class itself compares with, the others always new
    Rec r = gen.base(m, 1, 1, v);
    for (Gen.Slot s : Gen.slots(r, false, false)) {
      if (s.t.k == K.LIST || s.t.k == K.OBJ) continue;
      Object old = s.get();
      Object[] a = gen.tiny(s);
      for (int x = 0; x < a.length; x++) {
        if (x > 2 || x == 0) {
          final Object val = a[x];
          s.set(val);
          scenario(lib, id + "/" + s.path + "=" + x, null, i -> { vary(r, i, 1, s); out.clear(); Object o = sut.toObj(r); sut.encode(o, out); sut.decode(sut.mc(m).fresh(), out); o.toString(); o.hashCode(); });
        }
      }
      s.set(old);
      if (run.stop()) return;
    }
    // unknown codes
    Spec.Field u = m.union();
    if (u != null && v == 0) {
      Spec.Field d = m.fields.get(u.t.disc);
      Rec q = gen.base(m, 1, 1, v);
      byte[] good = Ref.encode(q);
      int at = 0;
      { Ref.Out o = new Ref.Out(); for (int i = 0; i < u.t.disc; i++) { Spec.Type t = m.fields.get(i).t; if (t.k == K.LEN || t.k == K.SUM) o.num(0, t.bits, t.le); else Ref.encVal(t, q.v[i], o); } at = o.n; }
      final int fa = at;
      scenario(lib, id + "/unknown", null, i -> {
        byte[] b = good.clone();
        if (d.t.k == K.INT) for (int x = 0; x < d.t.bits / 8; x++) b[fa + x] = (byte) (i * 31 + 17 >> (8 * x)); else for (int x = 0; x < d.t.width; x++) b[fa + x] = (byte) ('A' + (i >> (4 * x) & 15));
        try { sut.rawDecode(sut.mc(m).fresh(), Unpooled.wrappedBuffer(b)); } catch (Exception e) { /* rejected */ }
      });
    }
    out.release();
  }

  Object code(Registry r, int i) {
    if (r.keyType.equals("String")) return "n" + (100_000_000 + i);
    if (r.keyType.equals("Short")) { int x = 1000 + i % 30000; while (r.table.containsKey((short) x)) x++; return (short) x; }
    int x = 40_000_000 + i; while (r.table.containsKey(x)) x++; return x;
  }
  void registry(Lib lib, Registry r) {
    Sut sut = lib.sut;
    Sut.Reg g = sut.reg(r);
    Msg m = r.table.values().iterator().next();
    Class<?> c = sut.mc(m).c;
    List<Object> ks = new ArrayList<>(r.table.keySet());
    scenario(lib, r + "/lookups", null, i -> { Object o = g.create(ks.get(i % ks.size())); sut.fill(o, gen.base(r.table.get(ks.get(i % ks.size())), 1)); });
    scenario(lib, r + "/unknown", null, i -> { try { g.create(code(r, i)); } catch (IllegalArgumentException e) { /* expected */ } });
    scenario(lib, r + "/removeUnknown", null, i -> g.remove(code(r, i)));
    if (r.reverse) scenario(lib, r + "/reverse", null, i -> { try { g.rev(i % 2 == 0 ? sut.mc(r.table.get(ks.get(i % ks.size()))).c : String.class); } catch (IllegalArgumentException e) { /* expected */ } });
    Object k0 = code(r, 29_999);
    scenario(lib, r + "/replace", null, i -> { byte[] own = new byte[64]; g.register(c, k0, () -> { own[0]++; return sut.mc(m).fresh(); }); g.create(k0); });
    scenario(lib, r + "/registerRemove", null, i -> { Object k = code(r, i); byte[] own = new byte[64]; g.register(c, k, () -> { own[0]++; return sut.mc(m).fresh(); }); g.create(k); if (!g.remove(k)) throw new Sut.Broken("remove of a registered code returned false"); });
    scenario(lib, r + "/registerRemoveLate", null, i -> { g.register(c, code(r, i), () -> sut.mc(m).fresh()); if (i >= 16) g.remove(code(r, i - 16)); });
  }

  void checksums(Lib lib) {
    Sut sut = lib.sut;
    Sut.Sums s = sut.sums();
    scenario(lib, "sums/unknown", null, i -> s.get("n" + (1_000_000 + i)));
    scenario(lib, "sums/removeUnknown", null, i -> s.remove("n" + (1_000_000 + i)));
    scenario(lib, "sums/registerRemove", null, i -> { String n = "n" + (1_000_000 + i); if (!s.registry(s.custom(n, d -> 1))) throw new Sut.Broken("a free name was refused"); s.get(n); s.remove(n); });
    scenario(lib, "sums/refused", null, i -> { for (String a : ESums.ALGS) s.registry(s.custom(a, d -> i)); });
    scenario(lib, "sums/clear", null, i -> { s.clear(); for (String a : ESums.ALGS) s.registry(s.std(a)); });
    scenario(lib, "sums/clearCustom", null, i -> { s.registry(s.custom("n" + (1_000_000 + i), d -> 1)); s.clear(); for (String a : ESums.ALGS) s.registry(s.std(a)); });
    for (String a : ESums.ALGS) for (int kind = 0; kind < 2; kind++) {
      final int fk = kind;
      scenario(lib, "sums/" + a + (kind == 0 ? "/heap" : "/direct"), null, i -> {
        byte[] d = txt(i, 20 + i % 100, 1).getBytes(java.nio.charset.StandardCharsets.UTF_8);
        ByteBuf b = fk == 0 ? Unpooled.wrappedBuffer(d) : Unpooled.directBuffer(d.length).writeBytes(d);
        Object svc = s.get(a), x = s.calc(svc, b);
        s.verify(svc, b, x); s.verify(svc, b, 12345678); s.alg(svc);
        b.release();
      });
    }
  }
}
