package mc;

import io.netty.buffer.*;
import java.util.*;
import java.util.function.*;
import mc.Spec.*;

/** C09 history independence of message objects, C12 value semantics. */
public final class EObjects {
  final Run run; final Spec spec; final Gen gen;
  EObjects(Run run, Spec spec, Harvest hv) { this.run = run; this.spec = spec; gen = new Gen(spec, hv, run.thorough); }

  // ---- C09 --------------------------------------------------------------------------------------
  static final class Val { Rec r; byte[] bytes; Rec decoded; Rec after; byte[] fresh; }
  Val val(Sut sut, Rec r) {
    Val v = new Val();
    v.r = r;
    Object o = sut.toObj(r);
    ByteBuf b = Unpooled.buffer(256);
    sut.encode(o, b);
    v.bytes = EValues.take(b);
    v.after = sut.fromObj(o);
    Object p = sut.mc(r.m).fresh();
    sut.decode(p, Unpooled.wrappedBuffer(v.bytes));
    v.decoded = sut.fromObj(p);
    return v;
  }
  /** Expected outcome comes from new objects of the library itself (differential), state from a model value. */
  void c09() {
    List<Object[]> work = new ArrayList<>();
    for (Msg m : spec.msgs.values()) {
      int nv = gen.variants(m);
      if (nv == 1) work.add(new Object[] {m, 0, 0});
      else for (int v = 0; v < nv; v++) work.add(new Object[] {m, v, (v + 1) % nv});
    }
    run.extra.put("messages", spec.msgs.size());
    run.extra.put("history_depth", run.thorough ? 5 : 4);
    // values are computed in separate library instances, before any history exists
    run.parallel(work, () -> null, (x, it) -> {
      Msg m = (Msg) it[0];
      Sut clean = Sut.fresh(spec), sut = Sut.fresh(spec);
      try {
        List<Val> vs = new ArrayList<>();
        vs.add(val(clean, gen.base(m, 1, 1, (Integer) it[1])));
        vs.add(val(clean, gen.base(m, 0, 1, (Integer) it[2])));
        vs.add(val(clean, mixed(m, (Integer) it[2])));
        if (m.isFrame()) oddTotals(clean, m, vs.get(2));
        history(sut, m, vs, m + "/v" + it[1], m.isFrame() ? (run.thorough ? 4 : 3) : run.thorough ? 5 : 4);
        cuts(sut, m, vs, m + "/v" + it[1]);
        perField(sut, clean, m, (Integer) it[1]);
        parts(sut, m, vs, m + "/v" + it[1]);
        many(clean, m, (Integer) it[1]);
      } catch (Sut.Broken t) { run.violation(m + "/v" + it[1], Sut.desc(t)); }
      run.end();
    });
    crossObjects();
  }
  /** A peer's length and checksum: any value. */
  static void oddTotals(Sut clean, Msg m, Val v) {
    int at = 0;
    boolean body = false;
    for (Field f : m.fields) {
      int w = f.t.k == K.FIX ? f.t.width : f.t.bits / 8;
      if (f.t.k == K.UNION) body = true;
      else if (f.t.k == K.LEN || f.t.k == K.SUM) {
        int p = body ? v.bytes.length - w : at;
        for (int i = 0; i < w; i++) v.bytes[p + i] = (byte) (0x81 + 0x11 * i);
      }
      if (!body) at += w;
    }
    Object p = clean.mc(m).fresh();
    clean.decode(p, Unpooled.wrappedBuffer(v.bytes));
    v.decoded = clean.fromObj(p);
  }
  /** Some groups and texts absent, others longer; nested values absent inside elements. */
  Rec mixed(Msg m, int variant) {
    Rec r = gen.base(m, 2, 7, variant);
    mix(r, 0);
    return r;
  }
  void mix(Rec r, int p) {
    for (Field f : r.m.fields) {
      if (f.t.k == K.LIST) r.v[f.idx] = (f.idx + p) % 2 == 0 ? null : gen.list(f.t, 3, 1);
      else if (f.t.k == K.DYN) r.v[f.idx] = (f.idx + p) % 2 == 0 ? null : "zz" + f.idx;
      else if (f.t.k == K.OBJ || f.t.k == K.UNION) { if (r.v[f.idx] != null) mix((Rec) r.v[f.idx], p + 1); }
    }
  }

  interface Op { String apply(H h); }
  final class H {
    final Sut sut; final Object o; Rec state;
    H(Sut s, Msg m) { sut = s; o = s.mc(m).fresh(); state = s.fromObj(o); }
  }
  LinkedHashMap<String, Op> ops(Msg m, List<Val> vs) {
    LinkedHashMap<String, Op> o = new LinkedHashMap<>();
    for (int i = 0; i < vs.size(); i++) {
      Val v = vs.get(i);
      o.put("dec" + i, h -> {
        h.sut.decode(h.o, Unpooled.wrappedBuffer(v.bytes));
        Rec got = h.sut.fromObj(h.o);
        h.state = v.decoded;
        return Rec.diff(v.decoded, got, m.simple);
      });
    }
    for (int i = 0; i < 2; i++) {
      Val v = vs.get(i == 0 ? 0 : 2);
      o.put("set" + i, h -> {
        h.sut.fill(h.o, v.r);
        h.state = v.r;
        return Rec.diff(v.r, h.sut.fromObj(h.o), m.simple);
      });
    }
    o.put("enc", h -> {
      ByteBuf b = Unpooled.buffer(256);
      Throwable got = null;
      try { h.sut.rawEncode(h.o, b); } catch (Throwable t) { got = t; }
      // a value with an absent required nested message cannot be encoded; then the same holds for a new object
      Object f = h.sut.toObj(h.state);
      ByteBuf c = Unpooled.buffer(256);
      Throwable want = null;
      try { h.sut.rawEncode(f, c); } catch (Throwable t) { want = t; }
      if ((got == null) != (want == null)) return "encode " + (got == null ? "succeeded" : "threw " + Sut.desc(got)) + " but a new object with the same fields " + (want == null ? "encodes" : "threw " + Sut.desc(want));
      if (got != null) return null;
      String e = EValues.bytesDiff(EValues.take(c), EValues.take(b));
      if (e != null) return "encoding differs from a new object with the same fields: " + e;
      h.state = h.sut.fromObj(f);
      return Rec.diff(h.state, h.sut.fromObj(h.o), m.simple);
    });
    o.put("trunc", h -> {
      byte[] d = vs.get(0).bytes;
      if (d.length == 0) return null;
      try { h.sut.rawDecode(h.o, Unpooled.wrappedBuffer(d, 0, d.length - 1)); } catch (Throwable t) { /* rejected */ }
      h.state = h.sut.fromObj(h.o); // whatever it is now, it must have no later influence
      return null;
    });
    o.put("look", h -> {
      Object f = h.sut.toObj(h.state);
      try {
        if (h.o.hashCode() != f.hashCode()) return "hash differs from a new object with the same fields";
        if (!h.o.equals(f) || !f.equals(h.o)) return "not equal to a new object with the same fields";
        if (!h.o.toString().equals(f.toString())) return "text differs from a new object with the same fields: " + h.o + " vs " + f;
      } catch (StackOverflowError e) { return "endless recursion"; }
      return null;
    });
    return o;
  }
  void history(Sut sut, Msg m, List<Val> vs, String id, int depth) {
    LinkedHashMap<String, Op> ops = ops(m, vs);
    List<String> names = new ArrayList<>(ops.keySet());
    int total = (int) Math.pow(names.size(), depth);
    int[] seq = new int[depth];
    for (int c = 0; c < total; c++) {
      int x = c;
      for (int i = depth - 1; i >= 0; i--) { seq[i] = x % names.size(); x /= names.size(); }
      if (names.get(seq[depth - 1]).equals("trunc")) continue; // nothing is observed after it
      Supplier<String> key = () -> {
        StringBuilder b = new StringBuilder(id + "/hist");
        for (int i : seq) b.append('/').append(names.get(i));
        return b.toString();
      };
      if (!run.want(key)) continue;
      run.begin(key);
      H h = new H(sut, m);
      try {
        for (int i = 0; i < depth; i++) {
          String e = ops.get(names.get(seq[i])).apply(h);
          if (e != null) { run.violation(key.get(), "step " + i + " (" + names.get(seq[i]) + "): " + e); break; }
        }
      } catch (Sut.Broken t) { run.violation(key.get(), Sut.desc(t)); }
      if (run.stop()) return;
    }
    run.states.add(total);
    run.transitions.add((long) total * depth);
    run.traces.add(total);
  }
  /** A decode that failed at any point leaves no trace in the next decode of any value. */
  void cuts(Sut sut, Msg m, List<Val> vs, String id) {
    for (int a = 0; a < vs.size(); a++) for (int cut = 0; cut < vs.get(a).bytes.length; cut++) for (int b = 0; b < vs.size(); b++) {
      final int fa = a, fb = b, fc = cut;
      Supplier<String> key = () -> id + "/cut" + fa + "@" + fc + "/dec" + fb;
      if (!run.want(key)) continue;
      run.begin(key);
      Object o = sut.mc(m).fresh();
      try { sut.rawDecode(o, Unpooled.wrappedBuffer(vs.get(a).bytes, 0, cut)); } catch (Throwable t) { /* expected */ }
      try {
        sut.decode(o, Unpooled.wrappedBuffer(vs.get(b).bytes));
        String e = Rec.diff(vs.get(b).decoded, sut.fromObj(o), m.simple);
        if (e != null) run.violation(key.get(), "after a truncated decode: " + e);
      } catch (Sut.Broken t) { run.violation(key.get(), Sut.desc(t)); }
      run.states.increment(); run.transitions.add(2); run.traces.increment();
      if (run.stop()) return;
    }
  }
  /** Full value decoded, then the same value with one field changed (absent, empty, other): nothing of the first remains. */
  void perField(Sut sut, Sut clean, Msg m, int variant) {
    Rec r = gen.base(m, 1, 1, variant);
    byte[] first = val(clean, r).bytes;
    Object reused = sut.mc(m).fresh();
    Object enc = sut.toObj(r);
    List<Gen.Slot> slots = Gen.slots(r, false, false);
    for (Gen.Slot s : slots) {
      Object[] a = gen.small(s);
      Object old = s.get();
      for (int i = 0; i < a.length; i++) {
        final int fi = i;
        Supplier<String> key = () -> m + "/v" + variant + "/field/" + s.path + "=s" + fi;
        if (!run.want(key)) continue;
        run.begin(key);
        s.set(a[i]);
        try {
          Val v = val(clean, r);
          sut.decode(reused, Unpooled.wrappedBuffer(first));
          sut.decode(reused, Unpooled.wrappedBuffer(v.bytes));
          String e = Rec.diff(v.decoded, sut.fromObj(reused), m.simple);
          if (e != null) run.violation(key.get(), "second decode into the same object: " + e);
          // encode, change one field, encode again
          ByteBuf b = Unpooled.buffer(256);
          sut.encode(enc, b);
          sut.fill(enc, r);
          b.clear();
          sut.encode(enc, b);
          e = EValues.bytesDiff(v.bytes, EValues.take(b));
          if (e != null) run.violation(key.get(), "encoding after a field change: " + e);
          // change only the one property through its setter
          if (s.rec == r && s.elem < 0) {
            s.set(old);
            Object o = sut.toObj(r);
            o.hashCode(); o.toString(); o.equals(enc);
            b.clear(); sut.encode(o, b);
            sut.mc(m).set(o, s.idx, sut.toVal(a[i]));
            s.set(a[i]);
            b.clear(); sut.encode(o, b);
            e = EValues.bytesDiff(v.bytes, EValues.take(b));
            if (e != null) run.violation(key.get(), "encoding after setting one property: " + e);
            // computed fields of o and of a new object agree after both were encoded
            Object n = sut.toObj(r);
            b.clear(); sut.encode(n, b);
            if (o.hashCode() != n.hashCode()) run.violation(key.get(), "hash after setting one property differs from a new equal object");
            if (!o.toString().equals(n.toString())) run.violation(key.get(), "text after setting one property differs from a new equal object");
            sut.fill(enc, r);
          }
        } catch (Sut.Broken t) { run.violation(key.get(), Sut.desc(t)); }
        catch (StackOverflowError t) { run.violation(key.get(), "endless recursion"); }
        run.states.increment(); run.transitions.add(5); run.traces.add(3);
        if (run.stop()) return;
      }
      s.set(old);
    }
    // groups edited in place through the list the object holds
    for (Field f : m.fields) if (f.t.k == K.LIST) {
      String key = m + "/v" + variant + "/inplace/" + f.name;
      if (!run.want(key)) continue;
      try {
        Rec a = gen.base(m, 1, 1, variant);
        Object o = sut.toObj(a);
        ByteBuf b = Unpooled.buffer(256);
        sut.encode(o, b);
        @SuppressWarnings("unchecked") List<Object> l = (List<Object>) sut.mc(m).get(o, f.idx);
        Object extra = gen.elem(f.t.elem, 9, 1);
        l.add(sut.toVal(extra));
        @SuppressWarnings("unchecked") List<Object> ml = (List<Object>) a.v[f.idx];
        ml.add(extra);
        b.clear(); sut.encode(o, b);
        String e = EValues.bytesDiff(val(clean, a).bytes, EValues.take(b));
        if (e != null) run.violation(key, "encoding after the group grew in place: " + e);
      } catch (Sut.Broken t) { run.violation(key, Sut.desc(t)); }
    }
  }
  /** A list or nested message reachable through accessors, with its contents at the time. */
  static final class Part { final Object o; final Object snap; final String path; Part(Object o, Object s, String p) { this.o = o; snap = s; path = p; } }
  void collect(Sut sut, Object o, String path, List<Part> out) {
    if (o == null) return;
    if (o instanceof List) {
      out.add(new Part(o, sut.fromVal(o), path));
      int i = 0;
      for (Object e : (List<?>) o) { if (!(e instanceof String || e instanceof Number)) collect(sut, e, path + "[" + i + "]", out); i++; }
      return;
    }
    Sut.MC x = sut.mcOf(o.getClass());
    if (!path.isEmpty()) out.add(new Part(o, sut.fromObj(o), path));
    for (Field f : x.m.fields) if (f.t.k == K.LIST || f.t.k == K.OBJ || f.t.k == K.UNION) collect(sut, x.get(o, f.idx), path + "." + f.name, out);
  }
  String changed(Sut sut, List<Part> ps) {
    for (Part p : ps) {
      String d = Rec.diff(p.snap, sut.fromVal(p.o), p.path);
      if (d != null) return d;
    }
    return null;
  }
  /** Lists and nested messages got from or given to a message keep their contents whatever the message is used for next. */
  void parts(Sut sut, Msg m, List<Val> vs, String id) {
    boolean any = false;
    for (Field f : m.fields) any |= f.t.k == K.LIST || f.t.k == K.OBJ || f.t.k == K.UNION;
    if (!any) return;
    LinkedHashMap<String, Consumer<Object>> uses = new LinkedHashMap<>();
    for (int i = 0; i < vs.size(); i++) {
      Val v = vs.get(i);
      uses.put("dec" + i, o -> sut.decode(o, Unpooled.wrappedBuffer(v.bytes)));
      uses.put("set" + i, o -> sut.fill(o, v.r));
      for (int cut = 0; cut < v.bytes.length; cut++) {
        final int c = cut;
        uses.put("cut" + i + "@" + c, o -> { try { sut.rawDecode(o, Unpooled.wrappedBuffer(v.bytes, 0, c)); } catch (Throwable t) { /* rejected */ } });
      }
    }
    uses.put("enc", o -> { try { sut.rawEncode(o, Unpooled.buffer(256)); } catch (Throwable t) { /* absent parts */ } });
    List<String> sources = new ArrayList<>(List.of("decoded", "set", "shared", "twin"));
    sources.addAll(Sut.LISTS.keySet());
    for (String src : sources) for (int a = 0; a < vs.size(); a++) for (Map.Entry<String, Consumer<Object>> use : uses.entrySet()) {
      final int fa = a;
      Supplier<String> key = () -> id + "/parts/" + src + fa + "/" + use.getKey();
      if (!run.want(key)) continue;
      run.begin(key);
      Val v = vs.get(a);
      try {
        Object o, keep;
        List<Part> ps = new ArrayList<>();
        switch (src) {
          case "decoded": o = sut.mc(m).fresh(); sut.decode(o, Unpooled.wrappedBuffer(v.bytes)); collect(sut, o, "", ps); break;
          case "set": o = sut.toObj(v.r); collect(sut, o, "", ps); break;
          case "shared": // one list or nested message given to two messages
            o = sut.toObj(v.r); keep = sut.mc(m).fresh();
            for (int i = 0; i < v.r.v.length; i++) sut.mc(m).set(keep, i, sut.mc(m).get(o, i));
            ps.add(new Part(keep, sut.fromObj(keep), "other")); break;
          case "twin": // two messages decoded from the same bytes
            o = sut.mc(m).fresh(); keep = sut.mc(m).fresh();
            sut.decode(o, Unpooled.wrappedBuffer(v.bytes)); sut.decode(keep, Unpooled.wrappedBuffer(v.bytes));
            ps.add(new Part(keep, sut.fromObj(keep), "other")); break;
          default:
            sut.lists = Sut.LISTS.get(src);
            try { o = sut.toObj(v.r); } finally { sut.lists = UnaryOperator.identity(); }
            collect(sut, o, "", ps);
        }
        use.getValue().accept(o);
        String e = changed(sut, ps);
        if (e == null && use.getKey().startsWith("dec")) {
          Rec want = vs.get(use.getKey().charAt(3) - '0').decoded;
          e = Rec.diff(want, sut.fromObj(o), m.simple);
          if (e != null) e = "decoded value differs: " + e;
        }
        if (e != null) run.violation(key.get(), "part handed out or in earlier: " + e);
      } catch (Sut.Broken t) { run.violation(key.get(), Sut.desc(t)); }
      run.states.increment(); run.transitions.add(2); run.traces.increment();
      if (run.stop()) return;
    }
  }
  /** As many objects as any pool, ring or counter holds are kept, and one object is used as often. */
  void many(Sut clean, Msg m, int variant) {
    int n = run.thorough ? (m.isFrame() ? 70000 : 5000) : 1100;
    int p = 7; // distinct values; no power of two is a multiple of it
    String id = m + "/v" + variant + "/many";
    if (!run.want(() -> id)) return;
    run.begin(() -> id);
    Sut sut = Sut.fresh(spec);
    List<Val> vs = new ArrayList<>();
    for (int i = 0; i < p; i++) vs.add(val(clean, gen.base(m, i % 3, 1 + i, variant)));
    Object one = sut.mc(m).fresh();
    Object[] dec = new Object[Math.min(n, 5000)], set = new Object[dec.length];
    ByteBuf b = Unpooled.buffer(256);
    for (int i = 0; i < n; i++) {
      Val v = vs.get(i % p);
      Object d = sut.mc(m).fresh();
      sut.decode(d, Unpooled.wrappedBuffer(v.bytes));
      Object o = sut.toObj(v.r);
      b.clear();
      sut.encode(o, b);
      String e = EValues.bytesDiff(v.bytes, EValues.take(b));
      if (e != null) e = "encoding: " + e;
      if (e == null) { e = Rec.diff(v.decoded, sut.fromObj(d), m.simple); if (e != null) e = "decoding: " + e; }
      sut.decode(one, Unpooled.wrappedBuffer(v.bytes));
      if (e == null) { e = Rec.diff(v.decoded, sut.fromObj(one), m.simple); if (e != null) e = "decoding into one object: " + e; }
      sut.fill(one, v.r);
      b.clear();
      sut.encode(one, b);
      if (e == null) { e = EValues.bytesDiff(v.bytes, EValues.take(b)); if (e != null) e = "encoding one object: " + e; }
      if (e == null && (one.hashCode() != o.hashCode() || !one.equals(o) || !one.toString().equals(o.toString()))) e = "an object used before differs from a new one with the same fields";
      if (i % 5 == 0 && v.bytes.length > 0) try { sut.rawDecode(sut.mc(m).fresh(), Unpooled.wrappedBuffer(v.bytes, 0, v.bytes.length - 1)); } catch (Throwable t) { /* rejected */ }
      dec[i % dec.length] = d; set[i % dec.length] = o;
      run.states.increment(); run.transitions.add(4);
      if (e != null) { run.violation(id, "repetition " + i + ": " + e); return; }
    }
    for (int i = 0; i < dec.length; i++) { // n is a multiple of the array's length or smaller, so slot i was filled at i mod p of its round
      int at = n - dec.length + (i - (n - dec.length) % dec.length + dec.length) % dec.length;
      Val v = vs.get(at % p);
      String e = Rec.diff(v.decoded, sut.fromObj(dec[i]), m.simple);
      if (e == null) e = Rec.diff(v.after, sut.fromObj(set[i]), m.simple);
      if (e != null) { run.violation(id, "object " + at + " of " + n + " changed later: " + e); return; }
    }
    run.traces.increment();
  }
  /** Work on one object never shows in another, over all ordered pairs of message types (frames with every body) of all protocols. */
  void crossObjects() {
    List<Object[]> ms = new ArrayList<>();
    Sut clean = Sut.fresh(spec);
    for (Msg m : spec.msgs.values()) for (int v = 0, nv = gen.variants(m); v < nv; v++) {
      try { ms.add(new Object[] {m, m + (nv > 1 ? "#" + v : ""), List.of(val(clean, gen.base(m, 1, 1, v)), val(clean, gen.base(m, 0, 1, v)))}); }
      catch (Sut.Broken t) { run.violation(m + "/values", Sut.desc(t)); return; }
    }
    run.extra.put("cross_pairs", ms.size() * ms.size());
    run.parallel(ms, () -> Sut.fresh(spec), (sut, xm) -> {
      Msg m = (Msg) xm[0];
      for (Object[] xn : ms) {
        Msg n = (Msg) xn[0];
        for (int a = 0; a < 2; a++) for (int b = 0; b < 2; b++) {
          final int fa = a, fb = b;
          Supplier<String> key = () -> "cross/" + xm[1] + "/" + fa + "/" + xn[1] + "/" + fb;
          if (!run.want(key)) continue;
          run.begin(key);
          Val v = (Val) ((List<?>) xm[2]).get(a), u = (Val) ((List<?>) xn[2]).get(b);
          try {
            String e = null;
            Object x = sut.mc(m).fresh(), y = sut.mc(n).fresh();
            ByteBuf p = Unpooled.buffer(256), q = Unpooled.buffer(256);
            // all of the first object's work, a rejected message included, then the second's; and step by step in turn
            if (a == b) {
              sut.decode(x, Unpooled.wrappedBuffer(v.bytes));
              sut.encode(sut.toObj(v.r), p);
              if (v.bytes.length > 0) try { sut.rawDecode(sut.mc(m).fresh(), Unpooled.wrappedBuffer(v.bytes, 0, v.bytes.length - 1)); } catch (Throwable t) { /* rejected */ }
              if (a == 0) sut.encode(sut.toObj(u.r), q);
              sut.decode(y, Unpooled.wrappedBuffer(u.bytes));
              if (a == 1) sut.encode(sut.toObj(u.r), q);
            } else {
              sut.decode(x, Unpooled.wrappedBuffer(v.bytes));
              sut.decode(y, Unpooled.wrappedBuffer(u.bytes));
              sut.encode(sut.toObj(v.r), p);
              sut.encode(sut.toObj(u.r), q);
            }
            e = Rec.diff(v.decoded, sut.fromObj(x), "first");
            if (e == null) e = Rec.diff(u.decoded, sut.fromObj(y), "second");
            if (e == null) e = EValues.bytesDiff(v.bytes, EValues.take(p));
            if (e == null) e = EValues.bytesDiff(u.bytes, EValues.take(q));
            if (e != null) run.violation(key.get(), "one object's work shows in another: " + e);
          } catch (Sut.Broken t) { run.violation(key.get(), Sut.desc(t)); }
          run.states.increment(); run.transitions.add(4); run.traces.increment();
          if (run.stop()) return;
        }
      }
      run.end();
    });
  }

  // ---- C12 --------------------------------------------------------------------------------------
  void c12() {
    List<Object[]> work = new ArrayList<>();
    for (Msg m : spec.msgs.values()) for (int v = 0; v < gen.variants(m); v++) for (int s = 0; s < 3; s++) work.add(new Object[] {m, v, s});
    run.extra.put("base_values", work.size());
    run.parallel(work, () -> Sut.fresh(spec), (sut, it) -> {
      try { values(sut, (Msg) it[0], (Integer) it[1], (Integer) it[2]); }
      catch (Sut.Broken t) { run.violation(it[0] + "/v" + it[1] + "s" + it[2], Sut.desc(t)); }
      catch (StackOverflowError t) { run.violation(it[0] + "/v" + it[1] + "s" + it[2], "endless recursion in " + Arrays.asList(t.getStackTrace()).subList(0, 2)); }
      run.end();
    });
    // different types are never equal
    Sut sut = Sut.fresh(spec);
    List<Msg> ms = new ArrayList<>(spec.msgs.values());
    for (Msg a : ms) for (Msg b : ms) {
      if (a == b) continue;
      String k = "types/" + a + "/" + b;
      if (!run.want(k)) continue;
      try {
        if (sut.mc(a).fresh().equals(sut.mc(b).fresh())) run.violation(k, "messages of different types are equal");
      } catch (Sut.Broken t) { run.violation(k, Sut.desc(t)); } catch (RuntimeException t) { run.violation(k, Sut.desc(t)); }
      run.states.increment(); run.transitions.increment();
    }
  }
  void values(Sut sut, Msg m, int variant, int style) {
    String id = m + "/v" + variant + "s" + style;
    Rec r = gen.base(m, style, 1, variant);
    // the variants: base and every single-field change
    List<Rec> vs = new ArrayList<>();
    List<String> names = new ArrayList<>();
    vs.add(r.copy()); names.add("base");
    for (Gen.Slot s : Gen.slots(r, true, true)) {
      boolean nested = s.rec != r;
      if (nested && !run.thorough && m.isFrame()) continue;
      Object[] a = run.thorough || style == 1 ? gen.alphabet(s) : gen.small(s);
      Object old = s.get();
      Set<Object> seen = new HashSet<>();
      for (int i = 0; i < a.length; i++) {
        s.set(a[i]);
        vs.add(r.copy()); names.add(s.path + "=#" + i);
      }
      if (s.t.k == K.FIX || s.t.k == K.DYN || s.t.k == K.LIST || s.t.k == K.OBJ) if (!(s.elem >= 0)) { s.set(null); vs.add(r.copy()); names.add(s.path + "=null"); }
      s.set(old);
    }
    Field u = m.union();
    if (u != null) { Rec c = r.copy(); c.v[u.idx] = null; vs.add(c); names.add(u.name + "=null"); }
    Object base = sut.toObj(r), copy = sut.toObj(r);
    int n = vs.size();
    for (int i = 0; i < n; i++) {
      String key = id + "/" + names.get(i);
      if (!run.want(key)) continue;
      run.begin(() -> key);
      Rec x = vs.get(i);
      boolean same = Rec.eq(r, x);
      Object o = sut.toObj(x), o2 = sut.toObj(x);
      String e = null;
      boolean ab = base.equals(o), ba = o.equals(base);
      if (ab != same || ba != same) e = "equality with the base value is " + ab + "/" + ba + ", fields are " + (same ? "equal" : "different");
      else if (!o.equals(o) || !o.equals(o2) || !o2.equals(o)) e = "not equal to an identical message";
      else if (o.equals(null) || o.equals("x") || o.equals(new Object())) e = "equal to a foreign object";
      else if (o.hashCode() != o2.hashCode()) e = "equal messages have different hash codes";
      else if (o.hashCode() != o2.hashCode() || o.hashCode() != o.hashCode()) e = "hash code changes";
      else {
        String t = o.toString();
        if (t == null || !t.equals(o2.toString())) e = "text of equal messages differs";
        else if (!same && distinctText(r, x) && t.equals(base.toString())) e = "text does not show the changed field";
        else {
          Rec back = sut.fromObj(o);
          e = Rec.diff(x, back, m.simple);
          if (e != null) e = "accessors (or equals, hashCode, toString side effects): " + e;
        }
      }
      if (e != null) run.violation(key, e + " | value " + x);
      run.states.increment(); run.transitions.add(12); run.traces.increment();
      if (run.stop()) return;
    }
    // groups held in any kind of list, also inside nested messages
    for (int i : new int[] {0, n - 1}) for (Map.Entry<String, java.util.function.UnaryOperator<List<Object>>> kind : Sut.LISTS.entrySet()) {
      if (!hasList(vs.get(i))) break;
      String key = id + "/list/" + kind.getKey() + "/" + names.get(i);
      if (!run.want(key)) continue;
      run.begin(() -> key);
      Rec x = vs.get(i);
      Object a = sut.toObj(x), b;
      sut.lists = kind.getValue();
      try { b = sut.toObj(x); } finally { sut.lists = UnaryOperator.identity(); }
      String e = null;
      if (!a.equals(b) || !b.equals(a)) e = "equality is " + a.equals(b) + "/" + b.equals(a) + " for messages that differ only in the kind of list";
      else if (a.hashCode() != b.hashCode()) e = "equal messages (kind of list differs) have different hash codes";
      else if (!a.toString().equals(b.toString())) e = "text depends on the kind of list";
      else e = Rec.diff(x, sut.fromObj(b), m.simple);
      if (e == null && encodable(sut, a)) {
        ByteBuf p = Unpooled.buffer(256), q = Unpooled.buffer(256);
        sut.encode(a, p); sut.encode(b, q);
        e = EValues.bytesDiff(EValues.take(p), EValues.take(q));
        if (e != null) e = "encoding depends on the kind of list: " + e;
      }
      if (e != null) run.violation(key, e + " | value " + x);
      run.states.increment(); run.transitions.add(6); run.traces.increment();
    }
    Rec after = sut.fromObj(base);
    if (!Rec.eq(r, after)) run.violation(id + "/base", "comparisons changed the message: " + Rec.diff(r, after, m.simple));
    // all pairs over a reduced set: equality is exactly equality of fields
    List<Rec> few = new ArrayList<>();
    List<String> fewNames = new ArrayList<>();
    int step = Math.max(1, n / 60);
    for (int i = 0; i < n; i += step) { few.add(vs.get(i)); fewNames.add(names.get(i)); }
    for (int i = 0; i < few.size(); i++) {
      Object a = sut.toObj(few.get(i));
      for (int j = 0; j < few.size(); j++) {
        final int fi = i, fj = j;
        Supplier<String> key = () -> id + "/pair/" + fewNames.get(fi) + "/" + fewNames.get(fj);
        if (!run.want(key)) continue;
        Object b = sut.toObj(few.get(j));
        boolean same = Rec.eq(few.get(i), few.get(j));
        if (a.equals(b) != same) run.violation(key.get(), "equality is " + !same + " for " + few.get(i) + " and " + few.get(j));
        if (same && a.hashCode() != b.hashCode()) run.violation(key.get(), "equal messages with different hash codes");
        run.states.increment(); run.transitions.increment(); run.traces.increment();
      }
    }
    // values that hashing, printing, trimming or folding would confuse
    for (Gen.Slot s : Gen.slots(r, true, true)) {
      if (s.rec != r && !run.thorough && m.isFrame()) continue;
      Object old = s.get();
      Object[][] cs = confusions(s.t);
      for (int i = 0; i < cs.length; i++) {
        final int fi = i;
        Supplier<String> key = () -> id + "/alike/" + s.path + "#" + fi;
        if (!run.want(key)) continue;
        run.begin(key);
        s.set(cs[i][0]); Object a = sut.toObj(r);
        s.set(cs[i][1]); Object b = sut.toObj(r);
        if (a.equals(b) || b.equals(a)) run.violation(key.get(), "equal although " + s.path + " is " + cs[i][0] + " in one and " + cs[i][1] + " in the other");
        run.states.increment(); run.transitions.add(2); run.traces.increment();
      }
      s.set(old);
    }
    // the second changed field counts whatever the value of the first
    List<Gen.Slot> own = new ArrayList<>();
    for (Gen.Slot s : Gen.slots(r, true, true)) if (s.rec == r && s.elem < 0) own.add(s);
    for (Gen.Slot s : own) {
      Object olds = s.get();
      List<Object> first = new ArrayList<>(Arrays.asList(gen.small(s)));
      if (nullable(s.t)) first.add(null);
      for (Object x : first) {
        s.set(x);
        Object a = sut.toObj(r);
        for (Gen.Slot t : own) if (t != s) {
          Object oldt = t.get();
          List<Object> other = new ArrayList<>(Arrays.asList(gen.tiny(t)));
          if (nullable(t.t)) other.add(null);
          for (Object y : other) {
            if (y == oldt) continue;
            Supplier<String> key = () -> id + "/two/" + s.path + "=" + x + "/" + t.path + "=" + y;
            if (!run.want(key)) continue;
            run.begin(key);
            boolean same = oldt == null ? y == null : oldt.equals(y);
            t.set(y);
            Object b = sut.toObj(r);
            if (a.equals(b) != same || b.equals(a) != same) run.violation(key.get(), "equality is " + !same + " for messages whose " + t.path + " is " + oldt + " in one and " + y + " in the other");
            else if (same && a.hashCode() != b.hashCode()) run.violation(key.get(), "equal messages with different hash codes");
            run.states.increment(); run.transitions.add(2); run.traces.increment();
          }
          t.set(oldt);
        }
        // exchanged between the two fields
        for (Gen.Slot t : own) if (t != s && t.t.k == s.t.k && t.t.bits == s.t.bits && t.t.width == s.t.width && t.t.k != K.UNION && t.t.k != K.OBJ && t.t.k != K.LIST) {
          Object oldt = t.get();
          if (Objects.equals(x, oldt)) continue;
          Supplier<String> key = () -> id + "/swap/" + s.path + "=" + x + "/" + t.path;
          if (!run.want(key)) continue;
          t.set(x); s.set(oldt);
          Object b = sut.toObj(r);
          if (a.equals(b)) run.violation(key.get(), "equal although the values of " + s.path + " and " + t.path + " are exchanged");
          t.set(oldt); s.set(x);
          run.states.increment(); run.transitions.increment(); run.traces.increment();
        }
        if (run.stop()) return;
      }
      s.set(olds);
    }
    // setters touch only their own property; text shows every value
    for (Field f : m.fields) {
      String key = id + "/set/" + f.name;
      if (!run.want(key)) continue;
      for (int from = 0; from < 2; from++) {
        Rec e = from == 0 ? r.copy() : sut.fromObj(sut.mc(m).fresh());
        Object o = from == 0 ? sut.toObj(r) : sut.mc(m).fresh();
        Rec other = gen.base(m, style == 1 ? 2 : 1, 23, variant);
        Object v = other.v[f.idx];
        sut.mc(m).set(o, f.idx, sut.toVal(v));
        e.v[f.idx] = v;
        String d = Rec.diff(e, sut.fromObj(o), m.simple);
        if (d != null) run.violation(key, "setting " + f.name + ": " + d);
        if (!(v instanceof Rec) && v != null) {
          String want = v instanceof List && !((List<?>) v).isEmpty() && ((List<?>) v).get(0) instanceof Rec ? null : String.valueOf(v);
          if (want != null && !o.toString().contains(want)) run.violation(key, "text does not show " + f.name + "=" + want + ": " + o);
        }
        if (from == 0 && (f.t.k == K.FIX || f.t.k == K.DYN || f.t.k == K.LIST && f.t.elem.k != K.OBJ)) for (int len : new int[] {20, 50, 101, 300, 5000}) {
          Object big = f.t.k == K.LIST ? gen.list(f.t, len, 3) : Gen.text(len, 3);
          sut.mc(m).set(o, f.idx, sut.toVal(big));
          if (!o.toString().contains(String.valueOf(big))) run.violation(key, "text does not show all of " + f.name + ", which holds " + len + (f.t.k == K.LIST ? " elements" : " characters"));
          Object almost = f.t.k == K.LIST ? new ArrayList<>((List<?>) big) : ((String) big).substring(0, len - 1) + "~";
          if (f.t.k == K.LIST) { @SuppressWarnings("unchecked") List<Object> al = (List<Object>) almost; al.remove(len - 1); }
          Rec x = r.copy();
          x.v[f.idx] = big;
          Object p = sut.toObj(x);
          x.v[f.idx] = almost;
          Object q = sut.toObj(x);
          if (!o.equals(p) || o.hashCode() != p.hashCode() || o.equals(q) || q.equals(o)) run.violation(key, "equality is wrong for a " + f.name + " of " + len + (f.t.k == K.LIST ? " elements" : " characters"));
          run.transitions.add(4);
        }
        if (from == 0 && f.t.k == K.LIST) { // order and number of the elements: every arrangement of two, some of three and five
          List<List<Object>> as = new ArrayList<>();
          Object[] el = new Object[5];
          for (int i = 0; i < 5; i++) el[i] = gen.elem(f.t.elem, 3 + i, 1);
          for (int len = 1; len <= 4; len++) for (int x = 0; x < 1 << len; x++) { List<Object> l = new ArrayList<>(); for (int i = 0; i < len; i++) l.add(el[x >> i & 1]); as.add(l); }
          for (int[] perm : new int[][] {{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}, {0, 1, 2, 3, 4}, {1, 0, 2, 3, 4}, {0, 1, 3, 2, 4}, {0, 1, 2, 4, 3}, {4, 3, 2, 1, 0}, {0, 3, 2, 1, 4}, {0, 1, 2, 3, 3}, {0, 0, 2, 3, 4}, {0, 1, 1, 3, 4}}) { List<Object> l = new ArrayList<>(); for (int i : perm) l.add(el[i]); as.add(l); }
          Object[] os = new Object[as.size()];
          for (int i = 0; i < os.length; i++) { Rec x = r.copy(); x.v[f.idx] = as.get(i); os[i] = sut.toObj(x); }
          for (int i = 0; i < os.length; i++) for (int j = 0; j < os.length; j++) {
            boolean same = Rec.diff(as.get(i), as.get(j), "") == null;
            if (os[i].equals(os[j]) != same) run.violation(key, "messages whose " + f.name + " are arranged as " + plain(as.get(i)) + " and " + plain(as.get(j)) + (same ? " are not equal" : " are equal"));
            if (same && os[i].hashCode() != os[j].hashCode()) run.violation(key, "equal messages have different hash codes");
          }
          run.transitions.add((long) os.length * os.length);
        }
        if (from == 0) sut.mc(m).set(o, f.idx, sut.toVal(v));
        Object back = sut.mc(m).get(o, f.idx);
        Object ref = sut.toVal(v);
        if (back == null ? ref != null : !back.equals(ref)) run.violation(key, "getter returns something else than was set");
        run.states.increment(); run.transitions.add(3); run.traces.increment();
      }
    }
  }
  static boolean nullable(Type t) { return t.k == K.FIX || t.k == K.DYN || t.k == K.LIST || t.k == K.OBJ; }
  /** Different values that look alike to a hash, a text, a trim, a case or width conversion. */
  static Object[][] confusions(Type t) {
    switch (t.k) {
      case FIX: case DYN: return new Object[][] {{null, "null"}, {null, ""}, {"Aa", "BB"}, {"a", "A"}, {"1", "1 "}, {"1", "01"}, {"1", " 1"}, {"1", "1\0"}, {"1", "1.0"}, {"\u00e9", "e\u0301"}, {"\ud83d\ude00", "?"}, {"1, x=2", "1"}, {"ABCDEFGH12", "ABCDEFGH13"}};
      case INT: case LEN: case SUM: {
        List<Object[]> l = new ArrayList<>();
        List<Object> p = new ArrayList<>(), q = new ArrayList<>();
        long[][] ps = {{0, -1}, {1, -1}, {0, 1L << 32}, {1, 1L << 32}, {5, 5 + (1L << 32)}, {0, 65536}, {0, 256}, {5, 5 + 65536}, {5, 5 + 256}, {(1L << 24) + 1, 1L << 24}, {(1L << 53) + 1, 1L << 53}, {Long.MAX_VALUE, Long.MAX_VALUE - 1}, {127, 128}, {1000, 1001}, {-1000, 1000}, {0x80000000L, 0x7fffffffL}};
        for (long[] x : ps) {
          p.clear(); q.clear();
          Gen.addInt(p, t.bits, x[0]); Gen.addInt(q, t.bits, x[1]);
          if (p.size() == 1 && q.size() == 1 && !p.get(0).equals(q.get(0))) l.add(new Object[] {p.get(0), q.get(0)});
        }
        return l.toArray(new Object[0][]);
      }
      case LIST: {
        if (t.elem.k != K.FIX && t.elem.k != K.DYN) return new Object[][] {{null, new ArrayList<>()}};
        return new Object[][] {{null, new ArrayList<>()}, {new ArrayList<>(List.of("a, b")), new ArrayList<>(List.of("a", "b"))}, {new ArrayList<>(List.of("a", "b")), new ArrayList<>(List.of("b", "a"))}, {new ArrayList<>(List.of("a")), new ArrayList<>(List.of("a", "a"))}, {new ArrayList<>(List.of("")), new ArrayList<>()}};
      }
      case FLT: return t.bits == 32 ? new Object[][] {{1f, Math.nextUp(1f)}, {16777216f, 16777218f}, {1e-40f, 0f}, {Float.MAX_VALUE, Float.POSITIVE_INFINITY}, {1f, -1f}, {0f, -0f}, {Float.NaN, 0f}} : new Object[][] {{1d, Math.nextUp(1d)}, {1d, (double) 1.0000001f}, {1e300, Double.POSITIVE_INFINITY}, {1e-310, 0d}, {1d, -1d}, {0d, -0d}, {Double.NaN, 0d}};
      default: return new Object[0][];
    }
  }
  static boolean hasList(Object o) {
    if (o instanceof List) return true;
    if (o instanceof Rec) for (Object x : ((Rec) o).v) if (hasList(x)) return true;
    return false;
  }
  static boolean encodable(Sut sut, Object o) {
    try { sut.rawEncode(o, Unpooled.buffer(256)); return true; } catch (Throwable t) { return false; }
  }
  static boolean distinctText(Rec a, Rec b) { return !plain(a).equals(plain(b)); }
  static String plain(Object o) {
    if (o instanceof Rec) { StringBuilder s = new StringBuilder(); Rec r = (Rec) o; for (int i = 0; i < r.v.length; i++) s.append(r.m.fields.get(i).name).append('=').append(plain(r.v[i])).append(", "); return s.toString(); }
    if (o instanceof List) { StringJoiner j = new StringJoiner(", ", "[", "]"); for (Object x : (List<?>) o) j.add(plain(x)); return j.toString(); }
    return String.valueOf(o);
  }
}
