package mc;

import io.netty.buffer.*;
import java.lang.reflect.Method;
import java.lang.reflect.InvocationTargetException;
import java.util.*;
import java.util.concurrent.atomic.*;
import java.util.function.*;
import mc.Spec.*;

/** C07 code tables, C08 registry histories. */
public final class ERegs {
  final Run run; final Spec spec; final Gen gen;
  ERegs(Run run, Spec spec, Harvest hv) { this.run = run; this.spec = spec; gen = new Gen(spec, hv, run.thorough); }

  static Object key(Registry r, long x) {
    return r.keyType.equals("Short") ? (Object) (short) x : r.keyType.equals("Integer") ? (Object) (int) x : (Object) String.valueOf(x);
  }

  // ---- C07 ------------------------------------------------------------------------------------------
  /** Codes near published ones, for 32-bit tables. */
  static TreeSet<Integer> near(Registry r) {
    TreeSet<Integer> s = new TreeSet<>();
    for (Object ko : r.table.keySet()) {
      int k = (Integer) ko;
      for (int d = -300; d <= 300; d++) s.add(k + d);
      for (int i = 0; i < 32; i++) for (int j = i; j < 32; j++) s.add(k ^ 1 << i ^ (i == j ? 0 : 1 << j));
      for (int i = 0; i < 256; i++) { s.add(k + (i << 8)); s.add(k + (i << 16)); s.add(k + (i << 24)); s.add((k & 0xFFFF) | i << 16); s.add((k & 0xFF) | i << 8); }
      s.add(Integer.reverseBytes(k)); s.add(Integer.reverse(k)); s.add((int) (short) k); s.add((int) (byte) k); s.add(-k); s.add(~k);
      for (int m : new int[] {2, 3, 7, 10, 16, 31, 100, 1000, 10000}) { s.add(k * m); s.add(k / m); }
      for (Object k2 : r.table.keySet()) { s.add(k ^ (Integer) k2); s.add(k + (Integer) k2); s.add(k - (Integer) k2); }
    }
    for (int x : new int[] {0, 1, -1, Integer.MIN_VALUE, Integer.MAX_VALUE}) s.add(x);
    return s;
  }
  static final String CH = "0123456789 \0AaZz-+._,/xX\u00e9\uff10\u0660";
  static LinkedHashSet<String> texts(Registry r, boolean thorough) {
    LinkedHashSet<String> s = new LinkedHashSet<>();
    s.add("");
    for (int a = 0; a < CH.length(); a++) for (int b = 0; b < CH.length(); b++) {
      s.add("" + CH.charAt(a)); s.add("" + CH.charAt(a) + CH.charAt(b));
      for (int c = 0; c < CH.length(); c++) s.add("" + CH.charAt(a) + CH.charAt(b) + CH.charAt(c));
    }
    for (int x = 0; x < 10000; x++) s.add(String.format("%04d", x));
    if (thorough) for (int x = 0; x < 1000000; x++) s.add(String.format("%06d", x));
    for (Object ko : r.table.keySet()) {
      String k = (String) ko;
      for (int i = 0; i < CH.length(); i++) { s.add(k + CH.charAt(i)); s.add(CH.charAt(i) + k); s.add(k + CH.charAt(i) + CH.charAt(i)); s.add(CH.charAt(i) + k + CH.charAt(i)); }
      for (int i = 0; i <= k.length(); i++) { s.add(k.substring(0, i)); s.add(k.substring(i)); }
      s.add(new StringBuilder(k).reverse().toString()); s.add(k + k); s.add(k.toLowerCase()); s.add(k.toUpperCase());
      for (int i = 0; i < k.length(); i++) for (int b = 0; b < 16; b++) { char[] c = k.toCharArray(); c[i] ^= 1 << b; s.add(new String(c)); }
    }
    return s;
  }
  /** Same hash code as a published key, different text. */
  static void collisions(Registry r, Set<String> s) {
    for (Object ko : r.table.keySet()) {
      String k = (String) ko;
      for (int i = 0; i + 1 < k.length(); i++) for (int d : new int[] {-1, 1}) {
        char[] c = k.toCharArray(); c[i] += d; c[i + 1] -= 31 * d;
        s.add(new String(c));
      }
    }
  }

  String lookup(Sut sut, Sut.Reg g, Object k) {
    Msg m = g.r.table.get(k);
    Object o;
    try { o = g.create(k); }
    catch (IllegalArgumentException e) { return m == null ? null : "published code " + Rec.show(k) + " was rejected: " + e; }
    catch (Throwable t) { return (m == null ? "unknown" : "published") + " code " + Rec.show(k) + " failed with " + Sut.desc(t) + (m == null ? ", expected an illegal-argument error" : ""); }
    if (m == null) return "unknown code " + Rec.show(k) + " was accepted as " + (o == null ? "null" : o.getClass().getSimpleName());
    if (o == null || o.getClass() != sut.mc(m).c) return "code " + Rec.show(k) + " selects " + (o == null ? "null" : o.getClass().getName()) + ", published is " + m.cls;
    return null;
  }

  void c07() {
    List<Registry> pub = new ArrayList<>();
    for (Registry r : spec.regs) if (r.isPublic()) pub.add(r);
    run.extra.put("tables", spec.regs.size());
    // (a) direct lookup of every enumerated code
    List<Object[]> work = new ArrayList<>();
    for (Registry r : pub) {
      List<Object> ks = new ArrayList<>();
      if (r.keyType.equals("Short")) for (int x = -32768; x <= 32767; x++) ks.add((short) x);
      else if (r.keyType.equals("Integer")) {
        ks.addAll(near(r));
        int lo = run.thorough ? -(1 << 22) : -(1 << 16), hi = run.thorough ? 1 << 24 : 1 << 20;
        for (int from = lo; from < hi; from += 1 << 14) work.add(new Object[] {r, from, from + (1 << 14)});
      } else { Set<String> t = texts(r, run.thorough); collisions(r, t); ks.addAll(t); }
      for (int i = 0; i < ks.size(); i += 8192) work.add(new Object[] {r, ks.subList(i, Math.min(ks.size(), i + 8192))});
      run.extra.put("codes_" + r, r.keyType.equals("Integer") ? ks.size() + " + dense range" : "" + ks.size());
    }
    run.parallel(work, () -> Sut.fresh(spec), (sut, it) -> {
      Registry r = (Registry) it[0];
      Sut.Reg g = sut.reg(r);
      Iterator<Object> keys = it.length == 2 ? ((List<Object>) it[1]).iterator() : null;
      int x = it.length == 3 ? (Integer) it[1] : 0, end = it.length == 3 ? (Integer) it[2] : 0;
      long n = 0;
      run.begin(() -> r + "/lookups");
      while (keys != null ? keys.hasNext() : x < end) {
        Object k = keys != null ? keys.next() : (Object) (x++);
        n++;
        if (run.only != null && !run.only.equals(r + "/create/" + Rec.show(k))) continue;
        String e = lookup(sut, g, k);
        if (e != null) { run.violation(r + "/create/" + Rec.show(k), e); if (run.stop()) return; }
        if ((n & 0x3FF) == 0) run.begin(() -> r + "/lookups");
      }
      run.end();
      run.states.add(n); run.transitions.add(n); run.traces.increment();
    });
    // (b) published codes: fresh, default, unshared objects, whatever was looked up or done before
    run.parallel(pub, () -> 0, (z, r) -> {
      List<Object> ks = new ArrayList<>(r.table.keySet());
      for (int variant = 0; variant < 6; variant++) {
        Sut sut = Sut.fresh(spec); // first use differs per variant
        Sut.Reg g = sut.reg(r);
        if (variant == 1) lookup(sut, g, key(r, 99999999 % 32000));
        if (variant == 2) for (Object k : ks) lookup(sut, g, k);
        if (variant == 3) Collections.reverse(ks);
        for (Object k : ks) {
          final int fv = variant;
          String key = r + "/fresh/" + Rec.show(k) + "/v" + fv;
          if (!run.want(key)) continue;
          Msg m = r.table.get(k);
          try {
            String e = lookup(sut, g, k);
            if (e == null) {
              Rec def = sut.fromObj(sut.mc(m).fresh());
              Object a = g.create(k), b = g.create(k);
              if (a == b) e = "two lookups of " + Rec.show(k) + " return the same object";
              if (e == null) e = Rec.diff(def, sut.fromObj(a), "first");
              if (e == null) e = shares(sut, a, b);
              if (e == null) {
                Rec v = gen.base(m, 1);
                if (variant % 2 == 0) sut.fill(a, v);
                else sut.decode(a, Unpooled.wrappedBuffer(Ref.encode(v)));
                mutate(sut, a);
                e = Rec.diff(def, sut.fromObj(b), "second");
                if (e == null) e = Rec.diff(def, sut.fromObj(g.create(k)), "third");
                if (e != null) e = "a lookup result shows changes made to another: " + e;
              }
            }
            if (e != null) run.violation(key, e);
          } catch (Sut.Broken t) { run.violation(key, Sut.desc(t)); }
          catch (Throwable t) { run.violation(key, "lookup threw " + Sut.desc(t)); }
          run.states.increment(); run.transitions.add(4); run.traces.increment();
        }
      }
    });
    // (b2) whichever message class is used first, and however it is used, every table stays as published
    List<Object[]> firsts = new ArrayList<>();
    for (Msg m : spec.msgs.values()) for (int how = 0; how < 3; how++) firsts.add(new Object[] {m, how});
    run.extra.put("first_used_classes", firsts.size());
    run.parallel(firsts, () -> 0, (z, it) -> {
      Msg m = (Msg) it[0];
      String key = "first/" + m + "/" + it[1];
      if (!run.want(key)) return;
      run.begin(() -> key);
      Sut sut = Sut.fresh(spec);
      try {
        Object o = sut.mc(m).fresh();
        Rec v = gen.base(m, 1);
        if ((Integer) it[1] == 1) sut.decode(o, Unpooled.wrappedBuffer(Ref.encode(v)));
        if ((Integer) it[1] == 2) { sut.fill(o, v); sut.encode(o, Unpooled.buffer(256)); o.toString(); o.hashCode(); o.equals(sut.toObj(v)); }
        for (Registry r : pub) {
          Sut.Reg g = sut.reg(r);
          for (Object k : r.table.keySet()) { String e = lookup(sut, g, k); if (e != null) { run.violation(key, "after first using " + m + ": " + e); break; } }
          if (r.reverse) for (Map.Entry<Object, Msg> e : r.table.entrySet()) {
            Object got; try { got = g.rev(sut.mc(e.getValue()).c); } catch (Throwable t) { got = t; }
            if (!e.getKey().equals(got)) { run.violation(key, "after first using " + m + ": reverse lookup of " + e.getValue() + " gives " + got); break; }
          }
        }
      } catch (Sut.Broken t) { run.violation(key, Sut.desc(t)); }
      run.end();
      run.states.increment(); run.transitions.add(100); run.traces.increment();
    });
    // (b3) thousands of lookups whose results are kept are as many messages, all in their initial state
    run.parallel(pub, () -> 0, (z, r) -> {
      String key = r + "/kept";
      if (!run.want(key)) return;
      run.begin(() -> key);
      Sut sut = Sut.fresh(spec);
      Sut.Reg g = sut.reg(r);
      Set<Object> all = Collections.newSetFromMap(new IdentityHashMap<>());
      List<Object> ks = new ArrayList<>(r.table.keySet());
      int n = run.thorough ? 300000 : 20000;
      try {
        for (int i = 0; i < n; i++) {
          Object k = ks.get((i / 4096 % 2 == 0 ? i : i / 64) % ks.size()), o = g.create(k);
          if (!all.add(o)) { run.violation(key, "lookup number " + i + " returns a message that an earlier lookup returned"); break; }
          Msg m = r.table.get(k);
          String e = o.getClass() != sut.mc(m).c ? "is a " + o.getClass() : Rec.diff(sut.fromObj(sut.mc(m).fresh()), sut.fromObj(o), m.simple);
          if (e != null) { run.violation(key, "lookup number " + i + ": " + e); break; }
          if (i % 3 == 0) sut.fill(o, gen.base(m, 1));
        }
      } catch (Sut.Broken t) { run.violation(key, Sut.desc(t)); }
      catch (Throwable t) { run.violation(key, "lookup threw " + Sut.desc(t)); }
      run.end();
      run.states.increment(); run.transitions.add(n); run.traces.increment();
    });
    // (c) decoding with every enumerated code
    List<Object[]> dec = new ArrayList<>();
    for (Msg m : spec.msgs.values()) if (m.union() != null) {
      Field d = m.fields.get(m.union().t.disc);
      Registry r = m.union().t.reg;
      List<Object> codes = new ArrayList<>();
      if (d.t.k == K.INT) {
        if (d.t.bits == 16) for (int x = -32768; x <= 32767; x++) codes.add((long) x);
        else { for (int x : near(r)) codes.add((long) x); for (int x = -2000; x < (run.thorough ? 1 << 20 : 70000); x++) codes.add((long) x); }
      } else {
        byte[] al = {'0', '1', '2', '3', '4', '5', '6', '7', '8', '9', ' ', 0, 'A', 'a', '-', (byte) 0xC3, (byte) 0xA9, (byte) 0xFF};
        int w = d.t.width, n = (int) Math.pow(al.length, Math.min(w, 3));
        for (int x = 0; x < n; x++) { byte[] c = new byte[w]; Arrays.fill(c, (byte) ' '); for (int y = x, i = 0; i < Math.min(w, 3); i++) { c[i] = al[y % al.length]; y /= al.length; } codes.add(c); }
        for (Object ko : r.table.keySet()) { byte[] b = Ref.fix((String) ko, w, ' ', false); for (int i = 0; i < w; i++) for (int x = 0; x < 256; x++) { byte[] c = b.clone(); c[i] = (byte) x; codes.add(c); } }
      }
      for (int i = 0; i < codes.size(); i += 4000) dec.add(new Object[] {m, codes.subList(i, Math.min(i + 4000, codes.size()))});
      run.extra.put("decoded_codes_" + m, codes.size());
    }
    run.parallel(dec, () -> Sut.fresh(spec), (sut, it) -> {
      Msg m = (Msg) it[0];
      Field u = m.union();
      Field d = m.fields.get(u.t.disc);
      // header and code come first; the code's offset is found by comparing two encodings
      Rec base = gen.base(m, 2, 1, 0);
      Map<Object, byte[]> wire = new HashMap<>();
      int v = 0;
      for (Object k : u.t.reg.table.keySet()) wire.put(k, Ref.encode(gen.base(m, 2, 1, v++)));
      int off = 0;
      { Ref.Out o = new Ref.Out(); for (int i = 0; i < u.t.disc; i++) { Type t = m.fields.get(i).t; if (t.k == K.LEN || t.k == K.SUM) o.num(0, t.bits, t.le); else Ref.encVal(t, base.v[i], o); } off = o.n; }
      byte[] first = wire.values().iterator().next();
      byte[] junk = Arrays.copyOf(first, first.length + 4096);
      for (Object co : (List<?>) it[1]) {
        byte[] c;
        Object code;
        if (co instanceof Long) {
          int w = d.t.bits / 8;
          c = new byte[w];
          for (int i = 0; i < w; i++) c[i] = (byte) ((Long) co >>> (8 * (d.t.le ? i : w - 1 - i)));
          code = Ref.box((Long) co, d.t.bits);
        } else { c = (byte[]) co; code = Ref.unfix(c, 0, c.length, d.t.pad, d.t.left); }
        Supplier<String> key = () -> m + "/decode/" + EValues.hex(c, 20);
        if (!run.want(key)) continue;
        run.begin(key);
        Msg b = u.t.reg.table.get(code);
        byte[] bytes = b == null ? junk : wire.get(code);
        System.arraycopy(c, 0, bytes, off, c.length);
        Object o = sut.mc(m).fresh();
        String e = null;
        try {
          sut.rawDecode(o, Unpooled.wrappedBuffer(bytes));
          if (b == null) e = "unknown code " + Rec.show(code) + " was decoded as " + sut.mc(m).get(o, u.idx).getClass().getSimpleName();
          else {
            Object body = sut.mc(m).get(o, u.idx);
            if (body == null || body.getClass() != sut.mc(b).c) e = "code " + Rec.show(code) + " was decoded as " + (body == null ? "null" : body.getClass().getName()) + ", published is " + b.cls;
            else if (!Rec.eq(code, sut.mc(m).get(o, d.idx))) e = "code " + Rec.show(code) + " was decoded as code " + Rec.show(sut.mc(m).get(o, d.idx));
          }
        } catch (IllegalArgumentException x) { if (b != null) e = "published code " + Rec.show(code) + " was rejected: " + x; }
        catch (Sut.Broken x) { e = Sut.desc(x); }
        catch (Throwable x) { e = (b == null ? "unknown" : "published") + " code " + Rec.show(code) + " failed with " + Sut.desc(x); }
        if (e != null) { run.violation(key.get(), e); if (run.stop()) return; }
        run.states.increment(); run.transitions.add(2); run.traces.increment();
      }
      run.end();
    });
    // (d) SSE: reverse lookup and the MessageType names agree with the table
    for (Registry r : pub) if (r.reverse) {
      Sut sut = Sut.fresh(spec);
      Sut.Reg g = sut.reg(r);
      for (Msg m : spec.msgs.values()) {
        String key = r + "/reverse/" + m;
        if (!run.want(key)) continue;
        Object exp = null;
        for (Map.Entry<Object, Msg> e : r.table.entrySet()) if (e.getValue() == m) exp = e.getKey();
        Object got;
        try { got = g.rev(sut.mc(m).c); } catch (Throwable t) { got = exp == null && t instanceof IllegalArgumentException ? null : t; }
        if (!Objects.equals(exp, got)) run.violation(key, "reverse lookup of " + m.simple + " gives " + got + ", the table says " + exp);
        run.states.increment(); run.transitions.increment(); run.traces.increment();
      }
      try {
        Class<?> mt = null;
        for (Class<?> c : Class.forName(r.factory, true, sut.cl).getDeclaredClasses()) if (c.getSimpleName().equals("MessageType")) mt = c;
        if (mt == null) continue;
        Set<Object> vals = new HashSet<>();
        Method gv = mt.getMethod("getValue"), fv = mt.getMethod("fromValue", int.class);
        for (Object c : mt.getEnumConstants()) { vals.add(gv.invoke(c)); if (fv.invoke(null, gv.invoke(c)) != c && run.want("mt/" + c)) run.violation(r + "/mt/" + c, "fromValue(" + gv.invoke(c) + ") is not " + c); }
        if (!vals.equals(r.table.keySet())) run.violation(r + "/mt", "MessageType values " + vals + " differ from the table " + r.table.keySet());
        for (int x = -70000; x < 70000; x++) {
          boolean ok;
          try { fv.invoke(null, x); ok = true; } catch (InvocationTargetException e) { ok = false; if (!(e.getCause() instanceof IllegalArgumentException)) run.violation(r + "/mt/" + x, "fromValue threw " + e.getCause()); }
          if (ok != vals.contains(x)) { run.violation(r + "/mt/" + x, "fromValue(" + x + ") " + (ok ? "accepted" : "rejected")); break; }
          run.transitions.increment();
        }
      } catch (ReflectiveOperationException e) { throw new Sut.Broken("MessageType unusable: " + e, e); }
    }
  }
  /** Mutable parts reachable from both objects. */
  String shares(Sut sut, Object a, Object b) {
    Set<Object> s = Collections.newSetFromMap(new IdentityHashMap<>());
    parts(sut, a, s);
    Set<Object> t = Collections.newSetFromMap(new IdentityHashMap<>());
    parts(sut, b, t);
    for (Object x : s) if (t.contains(x)) return "two lookups share the object " + x.getClass().getName();
    return null;
  }
  void parts(Sut sut, Object o, Set<Object> s) {
    if (o == null || o instanceof Number || o instanceof String) return;
    if (o instanceof List) { if (!((List<?>) o).isEmpty()) s.add(o); for (Object x : (List<?>) o) parts(sut, x, s); return; }
    if (!s.add(o)) return;
    Sut.MC c = sut.mcOf(o.getClass());
    for (int i = 0; i < c.m.fields.size(); i++) parts(sut, c.get(o, i), s);
  }
  /** Changes nested objects and lists in place. */
  void mutate(Sut sut, Object o) {
    Sut.MC c = sut.mcOf(o.getClass());
    for (int i = 0; i < c.m.fields.size(); i++) {
      Object v = c.get(o, i);
      if (v instanceof List) { try { ((List<?>) v).remove(0); } catch (RuntimeException e) { /* unmodifiable or empty */ } }
      else if (v != null && !(v instanceof Number) && !(v instanceof String)) { Sut.MC n = sut.mcOf(v.getClass()); sut.fill(v, gen.base(n.m, 2, 40, -1)); }
    }
  }

  // ---- C08 ------------------------------------------------------------------------------------------
  /** Model of one message registry. */
  final class Model {
    final Registry r;
    final LinkedHashMap<Object, Object> fwd = new LinkedHashMap<>(); // code -> Msg (published) or supplier tag
    final Map<Msg, Object> rev = new HashMap<>();
    final Map<Msg, Set<Object>> stale = new HashMap<>();
    Model(Registry r) { this.r = r; for (Map.Entry<Object, Msg> e : r.table.entrySet()) { fwd.put(e.getKey(), e.getValue()); rev.put(e.getValue(), e.getKey()); } }
  }
  static final class Tagged { final Msg m; final String tag; Object last; int calls; Tagged(Msg m, String t) { this.m = m; tag = t; } }

  final class Rig {
    final Sut sut; final Registry r; final Sut.Reg g; final Model mo;
    final Object[] keys; final Tagged[] sup = new Tagged[2];
    final Msg frame;
    Rig(Sut sut, Registry r) {
      this.sut = sut; this.r = r; g = sut.reg(r); mo = new Model(r);
      List<Object> pk = new ArrayList<>(r.table.keySet());
      Object p1 = pk.get(pk.size() / 2), p2 = pk.get(0);
      Object u1 = r.keyType.equals("String") ? "999" : key(r, 23456);
      keys = pk.size() > 1 ? new Object[] {p1, u1, p2} : new Object[] {p1, u1};
      // two message types of the protocol to register; one of them is a body of this table
      Msg a = r.table.get(p2), b = null;
      for (Msg m : spec.msgs.values()) if (m.pkg.equals(r.owner.pkg) && !m.fields.isEmpty() && m.union() == null && !r.table.containsValue(m)) { b = m; break; }
      if (b == null) for (Msg m : spec.msgs.values()) if (m.pkg.equals(r.owner.pkg) && m.union() == null && m != a && m != r.table.get(p1)) { b = m; break; }
      sup[0] = new Tagged(a, "A"); sup[1] = new Tagged(b, "B");
      Msg f = null;
      for (Msg m : spec.msgs.values()) if (m.union() != null && m.union().t.reg == r) f = m;
      frame = f;
    }
    String create(Object k) {
      Object exp = mo.fwd.get(k), o = null;
      int[] before = {sup[0].calls, sup[1].calls};
      try { o = g.create(k); }
      catch (IllegalArgumentException e) { return exp == null ? null : "code " + Rec.show(k) + " was rejected, it is registered"; }
      catch (Throwable t) { return "lookup of " + Rec.show(k) + " threw " + Sut.desc(t); }
      if (exp == null) return "code " + Rec.show(k) + " was found, it is not registered";
      Msg m = exp instanceof Tagged ? ((Tagged) exp).m : (Msg) exp;
      if (o == null || o.getClass() != sut.mc(m).c) return "code " + Rec.show(k) + " selects " + (o == null ? "null" : o.getClass().getSimpleName()) + ", registered is " + m.simple;
      if (exp instanceof Tagged && (((Tagged) exp).last != o)) return "lookup of " + Rec.show(k) + " did not return what the registered supplier supplied";
      if (!(exp instanceof Tagged) && (sup[0].calls != before[0] || sup[1].calls != before[1])) return "lookup of " + Rec.show(k) + " used another registration";
      return null;
    }
    String register(Object k, int s) {
      Tagged t = sup[s];
      Supplier<Object> f = () -> { t.calls++; return t.last = sut.mc(t.m).fresh(); };
      int c0 = t.calls;
      try { g.register(sut.mc(t.m).c, k, f); } catch (Throwable x) { return "register threw " + Sut.desc(x); }
      if (r.reverse) {
        mo.rev.put(t.m, k);
      }
      mo.fwd.put(k, t);
      return null;
    }
    String remove(Object k) {
      boolean had = mo.fwd.containsKey(k), got;
      try { got = g.remove(k); } catch (Throwable x) { return "remove threw " + Sut.desc(x); }
      mo.fwd.remove(k);
      for (Map.Entry<Msg, Object> e : mo.rev.entrySet()) if (k.equals(e.getValue())) e.setValue(null);
      return got == had ? null : "remove(" + Rec.show(k) + ") returned " + got + ", the code was " + (had ? "" : "not ") + "registered";
    }
    String decode(Object k) {
      Object exp = mo.fwd.get(k);
      Msg m = exp == null ? null : exp instanceof Tagged ? ((Tagged) exp).m : (Msg) exp;
      Rec v = gen.base(frame, 2, 1, 0);
      v.v[frame.union().t.disc] = k;
      v.v[frame.union().idx] = m == null ? gen.base(sup[1].m, 2) : gen.base(m, 2);
      byte[] d = Ref.encode(v);
      if (m == null) d = Arrays.copyOf(d, d.length + 4096);
      Object o = sut.mc(frame).fresh();
      try { sut.rawDecode(o, Unpooled.wrappedBuffer(d)); }
      catch (IllegalArgumentException e) { return m == null ? null : "decoding code " + Rec.show(k) + " was rejected, it is registered"; }
      catch (Throwable t) { return "decoding code " + Rec.show(k) + " threw " + Sut.desc(t); }
      Object b = sut.mc(frame).get(o, frame.union().idx);
      if (m == null) return "decoding code " + Rec.show(k) + " succeeded, it is not registered";
      if (b == null || b.getClass() != sut.mc(m).c) return "decoding code " + Rec.show(k) + " used " + (b == null ? "null" : b.getClass().getSimpleName()) + ", registered is " + m.simple;
      return Rec.diff(v.v[frame.union().idx], sut.fromObj(b), "body");
    }
    /** SSE reverse lookups: the latest code registered for the type, never a removed one. */
    String reverse() {
      if (!r.reverse) return null;
      Set<Msg> ms = new LinkedHashSet<>(List.of(sup[0].m, sup[1].m));
      for (Object k : keys) if (r.table.get(k) != null) ms.add(r.table.get(k));
      for (Msg m : ms) {
        Object got;
        try { got = g.rev(sut.mc(m).c); } catch (IllegalArgumentException e) { got = null; } catch (Throwable t) { return "reverse lookup threw " + Sut.desc(t); }
        Object exp = mo.rev.get(m);
        if (exp != null && mo.fwd.containsKey(exp)) {
          Object cur = mo.fwd.get(exp);
          Msg cm = cur instanceof Tagged ? ((Tagged) cur).m : (Msg) cur;
          if (cm == m) { if (!exp.equals(got)) return "reverse lookup of " + m.simple + " gives " + got + ", registered is " + exp; continue; }
        }
        // removed or taken over by another type: nothing, or a code that is registered
        if (got != null && !mo.fwd.containsKey(got)) return "reverse lookup of " + m.simple + " gives " + got + ", which is not registered";
        if (got != null && !got.equals(exp)) {
          Object cur = mo.fwd.get(got);
          Msg cm = cur instanceof Tagged ? ((Tagged) cur).m : (Msg) cur;
          if (cm != m) return "reverse lookup of " + m.simple + " gives " + got + ", a code of " + cm.simple;
        }
      }
      return null;
    }
    String apply(int op) {
      int nk = keys.length, kinds = 5;
      Object k = keys[op % nk];
      switch (op / nk) {
        case 0: return register(k, 0);
        case 1: return register(k, 1);
        case 2: return remove(k);
        case 3: return create(k);
        default: return decode(k);
      }
    }
    int ops() { return keys.length * 5; }
    String name(int op) { return new String[] {"regA", "regB", "rm", "get", "dec"}[op / keys.length] + (op % keys.length); }
    String observe() {
      for (Object k : keys) { String e = create(k); if (e == null) e = decode(k); if (e != null) return e; }
      List<Object> pk = new ArrayList<>(r.table.keySet());
      String e = create(pk.get(pk.size() - 1));
      return e != null ? e : reverse();
    }
    void reset() {
      try {
        for (Object k : keys) g.remove(k);
        for (Object k : keys) if (r.table.get(k) != null) { Msg m = r.table.get(k); g.register(sut.mc(m).c, k, () -> sut.mc(m).fresh()); }
        mo.fwd.clear(); mo.rev.clear();
        for (Map.Entry<Object, Msg> x : r.table.entrySet()) { mo.fwd.put(x.getKey(), x.getValue()); mo.rev.put(x.getValue(), x.getKey()); }
        // reverse entries that a removal took away come back by registering again
        if (r.reverse) for (Map.Entry<Object, Msg> x : r.table.entrySet()) { Msg m = x.getValue(); g.register(sut.mc(m).c, x.getKey(), () -> sut.mc(m).fresh()); }
        if (r.reverse && !r.table.containsValue(sup[1].m)) mo.rev.put(sup[1].m, null);
      } catch (Throwable t) { throw new Sut.Broken("registry reset threw " + Sut.desc(t), t); }
    }
  }

  final Set<String> defaults = new TreeSet<>(); // checksum services present at start; which ones is C05's business
  void c08() {
    try { Sut x = Sut.fresh(spec); for (String a : ESums.ALGS) if (x.sums().get(a) != null) defaults.add(a); }
    catch (Throwable t) { throw new RuntimeException(t); }
    List<Registry> pub = new ArrayList<>();
    for (Registry r : spec.regs) if (r.isPublic()) pub.add(r);
    int fd = run.thorough ? 3 : 2, sd = run.thorough ? 5 : 4;
    run.extra.put("registries", pub.size() + 1);
    run.extra.put("history_depth_fresh_process", fd);
    run.extra.put("history_depth", sd);
    // (a) all histories, each in a fresh process image, with all registries compared afterwards
    // (b) deeper histories in one process, reset through the public interface in between
    for (int mode = 0; mode < 2; mode++) {
      final boolean fresh = mode == 0;
      final int depth = fresh ? fd : sd;
      List<int[]> work = new ArrayList<>();
      for (int ri = 0; ri < pub.size(); ri++) {
        int n = new Rig(Sut.fresh(spec), pub.get(ri)).ops();
        for (int a = 0; a < n; a++) for (int b = 0; b < (fresh ? 1 : n); b++) work.add(new int[] {ri, a, b});
      }
      run.parallel(work, () -> new HashMap<Registry, Rig>(), (cache, it) -> {
        Registry r = pub.get(it[0]);
        Rig shared = fresh ? null : cache.computeIfAbsent(r, x -> new Rig(Sut.fresh(spec), x));
        Rig probe = fresh ? new Rig(Sut.fresh(spec), r) : shared;
        int n = probe.ops();
        int[] seq = new int[depth];
        seq[0] = it[1];
        int fixed = fresh ? 1 : 2;
        if (!fresh) seq[1] = it[2];
        int total = (int) Math.pow(n, depth - fixed);
        for (int c = 0; c < total && !run.stop(); c++) {
          for (int y = c, i = fixed; i < depth; i++) { seq[i] = y % n; y /= n; }
          StringBuilder kb = new StringBuilder(r + (fresh ? "/fresh" : "/hist"));
          for (int o : seq) kb.append('/').append(probe.name(o));
          String key = kb.toString();
          if (!run.want(key)) continue;
          run.begin(() -> key);
          try {
            Rig g = fresh ? new Rig(Sut.fresh(spec), r) : shared;
            if (!fresh) g.reset();
            String e = null;
            for (int i = 0; i < depth && e == null; i++) { e = g.apply(seq[i]); run.transitions.increment(); if (e != null) e += " (step " + i + ")"; }
            if (e == null) e = g.observe();
            if (e == null && fresh && (c % 7 == 0 || run.thorough)) e = others(g, pub);
            if (e != null) run.violation(key, e);
            run.states.increment(); run.traces.increment();
          } catch (Sut.Broken t) { run.violation(key, Sut.desc(t)); }
        }
        run.end();
      });
    }
    run.parallel(pub, () -> 0, (z, r) -> {
      for (int order = 0; order < 3; order++) {
        final int fo = order;
        String key = r + "/many/" + order;
        if (!run.want(key)) continue;
        run.begin(() -> key);
        try { String e = many(r, fo); if (e != null) run.violation(key, e); } catch (Sut.Broken t) { run.violation(key, Sut.desc(t)); }
        run.states.increment(); run.traces.increment();
      }
      run.end();
    });
    run.parallel(pub, () -> 0, (z, r) -> {
      for (int v = 0; v < 4; v++) {
        final int fv = v;
        String key = r + "/emptied/" + v;
        if (!run.want(key)) continue;
        run.begin(() -> key);
        try { String e = emptied(r, fv); if (e != null) run.violation(key, e); } catch (Sut.Broken t) { run.violation(key, Sut.desc(t)); }
        run.states.increment(); run.traces.increment();
      }
      run.end();
    });
    checksums();
    checksumNames();
  }
  /** Every code removed down to none, in both orders; then one supplier under every code, taken away again; and the published ones restored. */
  String emptied(Registry r, int v) {
    Rig g = new Rig(Sut.fresh(spec), r);
    List<Object> ks = new ArrayList<>(r.table.keySet());
    if (v % 2 == 1) Collections.reverse(ks);
    Set<Object> there = new HashSet<>(ks);
    int[] calls = new int[1];
    Object[] last = new Object[1];
    Msg m = g.sup[v / 2].m;
    Class<?> c = g.sut.mc(m).c;
    Supplier<Object> one = () -> { calls[0]++; return last[0] = g.sut.mc(m).fresh(); };
    try {
      for (Object k : ks) {
        if (!g.g.remove(k)) return "removing " + Rec.show(k) + " returned false, it is registered";
        there.remove(k);
        for (Object x : ks) {
          if (there.contains(x)) { String e = lookup(g.sut, g.g, x); if (e != null) return "after removing " + Rec.show(k) + ": " + e; }
          else try { g.g.create(x); return "code " + Rec.show(x) + " was found after its removal, " + there.size() + " others are left"; } catch (IllegalArgumentException e) { /* gone */ }
          run.transitions.increment();
        }
      }
      for (Object k : ks) if (g.g.remove(k)) return "removing " + Rec.show(k) + " from an empty registry returned true";
      for (int round = 0; round < 2; round++) {
        for (Object k : ks) {
          g.g.register(c, k, one);
          there.add(k);
          for (Object x : ks) {
            int n = calls[0];
            try {
              Object o = g.g.create(x);
              if (!there.contains(x)) return "code " + Rec.show(x) + " was found, only " + there + " are registered";
              if (o != last[0] || calls[0] != n + 1) return "lookup of " + Rec.show(x) + " did not use the supplier registered under several codes";
            } catch (IllegalArgumentException e) { if (there.contains(x)) return "code " + Rec.show(x) + " was rejected; the supplier registered under it is also registered under others"; }
            run.transitions.increment();
          }
        }
        if (round == 1) break;
        for (Object k : ks) {
          if (!g.g.remove(k)) return "removing " + Rec.show(k) + " returned false, its supplier is registered under several codes";
          there.remove(k);
          for (Object x : ks) {
            boolean found = true;
            try { g.g.create(x); } catch (IllegalArgumentException e) { found = false; }
            if (found != there.contains(x)) return "code " + Rec.show(x) + (found ? " was found, it was removed" : " was rejected, the same supplier was removed only under another code");
            run.transitions.increment();
          }
        }
      }
      for (Object k : ks) { Msg pm = r.table.get(k); g.g.register(g.sut.mc(pm).c, k, () -> g.sut.mc(pm).fresh()); }
      for (Object k : ks) { String e = lookup(g.sut, g.g, k); if (e != null) return "after registering the published types again: " + e; }
    } catch (Sut.Broken t) { throw t; }
    catch (Throwable t) { return "threw " + Sut.desc(t); }
    return null;
  }
  /** Hundreds of registrations, beyond any initial capacity, in three orders of removal. */
  String many(Registry r, int order) {
    Rig g = new Rig(Sut.fresh(spec), r);
    int n = run.thorough ? 70000 : 5000;
    List<Object> ks = new ArrayList<>();
    for (int i = 0; ks.size() < n; i++) { Object k = key(r, (r.keyType.equals("String") ? 100 : -300) + i * (order == 1 ? 1 : 16)); if (r.keyType.equals("Short") && i * 16 > 30000 && order != 1) break; if (!r.table.containsKey(k)) ks.add(k); }
    Map<Object, int[]> calls = new HashMap<>();
    for (int i = 0; i < ks.size(); i++) {
      Object k = ks.get(i);
      Msg m = g.sup[i % 2].m;
      int[] c = new int[1];
      calls.put(k, c);
      try { g.g.register(g.sut.mc(m).c, k, () -> { c[0]++; return g.sut.mc(m).fresh(); }); } catch (Throwable t) { return "registering " + Rec.show(k) + " after " + i + " others threw " + Sut.desc(t); }
      run.transitions.increment();
      if (i < 1200 && i % 50 == 49 || i % 2048 < 2 || i == ks.size() - 1) { String e = manyCheck(g, ks, calls, i + 1, x -> true); if (e != null) return "after " + (i + 1) + " registrations: " + e; }
    }
    List<Object> rm = new ArrayList<>(ks);
    if (order == 0) Collections.reverse(rm);
    Set<Object> gone = new HashSet<>();
    for (int i = 0; i < rm.size(); i++) {
      if (order == 2 && i % 3 == 1) continue;
      try { if (!g.g.remove(rm.get(i))) return "removing " + Rec.show(rm.get(i)) + " returned false, it is registered"; if (g.g.remove(rm.get(i))) return "removing " + Rec.show(rm.get(i)) + " twice returned true"; } catch (Throwable t) { return "remove threw " + Sut.desc(t); }
      gone.add(rm.get(i));
      run.transitions.add(2);
      if (i < 400 && i % 50 == 49 || i % 2048 < 2 || i >= rm.size() - 2) { String e = manyCheck(g, ks, calls, ks.size(), x -> !gone.contains(x)); if (e != null) return "after " + gone.size() + " removals: " + e; }
    }
    return null;
  }
  String manyCheck(Rig g, List<Object> ks, Map<Object, int[]> calls, int n, java.util.function.Predicate<Object> there) {
    for (Object k : g.r.table.keySet()) { String e = lookup(g.sut, g.g, k); if (e != null) return e; }
    for (int i = 0; i < ks.size(); i++) {
      Object k = ks.get(i);
      boolean exp = i < n && there.test(k);
      int before = exp || calls.containsKey(k) ? calls.get(k)[0] : 0;
      Object o;
      try { o = g.g.create(k); }
      catch (IllegalArgumentException e) { if (exp) return "code " + Rec.show(k) + " was rejected, it is registered"; continue; }
      catch (Throwable t) { return "lookup of " + Rec.show(k) + " threw " + Sut.desc(t); }
      if (!exp) return "code " + Rec.show(k) + " was found, it is not registered";
      if (o == null || o.getClass() != g.sut.mc(g.sup[i % 2].m).c || calls.get(k)[0] != before + 1) return "lookup of " + Rec.show(k) + " used another registration";
      run.transitions.increment();
    }
    return null;
  }
  String others(Rig g, List<Registry> pub) {
    for (Registry o : pub) if (o != g.r) {
      Sut.Reg x = g.sut.reg(o);
      for (Object k : o.table.keySet()) { String e = lookup(g.sut, x, k); if (e != null) return "another registry (" + o + ") was affected: " + e; }
      if (o.keyType.equals(g.r.keyType)) for (Object k : g.keys) if (!o.table.containsKey(k)) { String e = lookup(g.sut, x, k); if (e != null) return "another registry (" + o + ") was affected: " + e; }
    }
    try { for (String a : defaults) if (g.sut.sums().get(a) == null) return "the checksum registry was affected: " + a; } catch (Throwable t) { return "checksum registry threw " + Sut.desc(t); }
    return null;
  }

  /** Names that look alike are different names: every ordered pair of them, each alone in an otherwise full registry, and thousands at once. */
  void checksumNames() {
    LinkedHashSet<String> ns = new LinkedHashSet<>(Arrays.asList(ESums.ALGS));
    for (String a : ESums.ALGS) Collections.addAll(ns, " " + a, a + " ", "\t" + a, a + "\n", a + "\0", a + "\u00a0", a + "\u3000", a.toLowerCase(Locale.ROOT), a.charAt(0) + a.substring(1).toLowerCase(Locale.ROOT), a.replace("_", ""), a.replace('_', '-'), a.replace("_", "__"), a.replace('_', ' '), "_" + a, "__" + a, a + "_", a.substring(1), a.substring(0, a.length() - 1), a + "2", a + a, a + "." + a, "x." + a, "x/" + a, a + ":1", new StringBuilder(a).reverse().toString());
    Collections.addAll(ns, "", " ", "0", "Aa", "BB", "AaAa", "BBBB", "AaBB", "\u0131", "i", "I", "\u00df", "SS", "CRC-16", "CRC 16", "crc-32", "SSE", "SZSE", "BIN", "SSEBIN", "SSE_BIN_", "null");
    List<String> names = new ArrayList<>(ns);
    run.extra.put("checksum_names", names.size() + " look-alike names: all ordered pairs; and " + (run.thorough ? 70000 : 5000) + " names at once");
    run.parallel(names, () -> Sut.fresh(spec), (sut, a) -> {
      try {
        Sut.Sums s = sut.sums();
        Map<String, Object> svc = new HashMap<>(), mo = new HashMap<>();
        for (String n : names) svc.put(n, s.custom(n, d -> 1));
        for (int mode = 0; mode < 4; mode++) for (String b : names) {
          final int fm = mode;
          String key = "checksum/names/" + Rec.show(a) + "/" + Rec.show(b) + "/" + fm;
          if (!run.want(key)) continue;
          run.begin(() -> key);
          s.clear(); mo.clear();
          String e = null;
          if (mode >= 2) for (String n : names) if (mode == 3 || !n.equals(a)) { if (!s.registry(svc.get(n))) e = "registering under the free name " + Rec.show(n) + " returned false"; mo.put(n, svc.get(n)); }
          if (mode == 0 || mode == 2) { if (!s.registry(svc.get(a))) e = "registering under the free name " + Rec.show(a) + " returned false"; mo.put(a, svc.get(a)); }
          else { s.remove(a); mo.remove(a); }
          if (e == null && (mode & 1) == 0) { s.remove(b); mo.remove(b); }
          else if (e == null) { boolean exp = !mo.containsKey(b); if (s.registry(svc.get(b)) != exp) e = "registering under " + Rec.show(b) + " returned " + !exp; mo.put(b, svc.get(b)); }
          for (String n : names) if (e == null && s.get(n) != mo.get(n)) e = "lookup of " + Rec.show(n) + " gives " + s.get(n) + ", registered is " + mo.get(n);
          run.states.increment(); run.traces.increment(); run.transitions.add(2 + (mode >= 2 ? names.size() : 0));
          if (e != null) run.violation(key, e);
          if (run.stop()) return;
        }
      } catch (Sut.Broken t) { run.violation("checksum/names", Sut.desc(t)); }
      catch (Throwable t) { run.violation("checksum/names", "threw " + Sut.desc(t)); }
      run.end();
    });
    if (!run.want("checksum/many")) return;
    try {
      Sut.Sums s = Sut.fresh(spec).sums();
      int n = run.thorough ? 70000 : 5000;
      Object[] svc = new Object[n];
      String e = null;
      for (int i = 0; i < n && e == null; i++) {
        svc[i] = s.custom("N" + i, d -> 1);
        if (!s.registry(svc[i])) e = "registering a service as number " + i + " returned false";
        if (e == null && (i % 1000 < 2 || i == n - 1)) for (int j = 0; j < n && e == null; j++) if (s.get("N" + j) != (j <= i ? svc[j] : null)) e = "after " + i + " registrations the lookup of number " + j + " gives " + s.get("N" + j);
      }
      for (int i = 0; i < n && e == null; i += 2) s.remove("N" + i);
      for (int j = 0; j < n && e == null; j++) if (s.get("N" + j) != (j % 2 == 1 ? svc[j] : null)) e = "after removals the lookup of number " + j + " gives " + s.get("N" + j);
      for (String a : ESums.ALGS) if (e == null && s.get(a) == null) e = a + " is gone";
      s.clear();
      for (int j = 0; j < n && e == null; j++) if (s.get("N" + j) != null) e = "number " + j + " is there after clearing";
      run.states.increment(); run.traces.increment(); run.transitions.add(n);
      if (e != null) run.violation("checksum/many", e);
    } catch (Throwable t) { run.violation("checksum/many", "threw " + Sut.desc(t)); }
  }

  /** The checksum registry against a put-if-absent map. */
  void checksums() {
    String[] names = {"CRC16", "SSE_BIN", "XTRA", "crc16"};
    int kinds = names.length * 4 + 1;
    for (int mode = 0; mode < 2; mode++) {
      boolean fresh = mode == 0;
      int depth = fresh ? (run.thorough ? 4 : 3) : run.thorough ? 6 : 5;
      run.extra.put(fresh ? "checksum_history_depth_fresh_process" : "checksum_history_depth", depth);
      run.parallel(kinds * kinds, () -> Sut.fresh(spec), (sut0, it) -> {
        int[] seq = new int[depth];
        seq[0] = it / kinds; seq[1] = it % kinds;
        int total = (int) Math.pow(kinds, depth - 2);
        for (int c = 0; c < total && !run.stop(); c++) {
          for (int y = c, i = 2; i < depth; i++) { seq[i] = y % kinds; y /= kinds; }
          String key = "checksum" + (fresh ? "/fresh" : "/hist") + Arrays.toString(seq).replace(" ", "");
          if (!run.want(key)) continue;
          run.begin(() -> key);
          Sut sut = fresh ? Sut.fresh(spec) : sut0;
          try {
            Sut.Sums s = sut.sums();
            Map<String, Object> mo = new HashMap<>();
            if (!fresh) { s.clear(); for (String a : ESums.ALGS) if (!s.registry(s.std(a))) { run.violation(key, "a service could not be registered after clearing"); break; } }
            for (String a : ESums.ALGS) { Object o = s.get(a); if (o != null) mo.put(a, o); }
            Object[][] svc = new Object[names.length][2];
            for (int i = 0; i < names.length; i++) for (int j = 0; j < 2; j++) { final int v = i * 2 + j; svc[i][j] = s.custom(names[i], d -> v); }
            String e = null;
            for (int i = 0; i < depth && e == null; i++) {
              int op = seq[i];
              if (op == kinds - 1) { s.clear(); mo.clear(); }
              else {
                int n = op / 4;
                String nm = names[n];
                switch (op % 4) {
                  case 0: case 1: {
                    boolean ok = s.registry(svc[n][op % 4]), exp = !mo.containsKey(nm);
                    if (exp) mo.put(nm, svc[n][op % 4]);
                    if (ok != exp) e = "registering under " + nm + " returned " + ok;
                    break;
                  }
                  case 2: s.remove(nm); mo.remove(nm); break;
                  default: if (s.get(nm) != mo.get(nm)) e = "lookup of " + nm + " gives " + s.get(nm) + ", registered is " + mo.get(nm);
                }
              }
              run.transitions.increment();
              if (e != null) e += " (step " + i + ")";
            }
            for (String nm : new String[] {"CRC16", "CRC32", "SSE_BIN", "SZSE_BIN", "XTRA", "crc16", "NONE"})
              if (e == null && s.get(nm) != mo.get(nm)) e = "lookup of " + nm + " gives " + s.get(nm) + ", registered is " + mo.get(nm);
            if (e != null) run.violation(key, e);
          } catch (Sut.Broken t) { run.violation(key, Sut.desc(t)); }
          catch (Throwable t) { run.violation(key, "threw " + Sut.desc(t)); }
          run.states.increment(); run.traces.increment();
        }
        run.end();
      });
    }
  }
}
