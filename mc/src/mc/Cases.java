package mc;

import java.util.*;
import java.util.function.*;
import mc.Spec.*;

/** Deviation-bounded enumeration of message values: every base, every 1-field deviation, every 2-field deviation. */
public final class Cases {
  public interface V { void visit(Rec r, Supplier<String> key); }

  final Run run; final Gen gen; final boolean disc, comp;
  public Cases(Run run, Gen gen, boolean disc, boolean comp) { this.run = run; this.gen = gen; this.disc = disc; this.comp = comp; }

  public static final class Unit { public Gen.Base b; public boolean fullBody, pairs; long weight; }

  public List<Unit> units() {
    List<Unit> l = new ArrayList<>();
    for (Msg m : gen.spec.msgs.values()) {
      int nv = gen.variants(m);
      for (int v = 0; v < nv; v++) for (int s = 0; s < 3; s++) {
        Unit u = new Unit();
        u.b = new Gen.Base(gen.base(m, s, 1, v), m + "/s" + s + (m.union() == null ? "" : "v" + v));
        u.fullBody = s == 1 || run.thorough;
        u.pairs = run.thorough ? s != 2 : s == 1 && (m.isFrame() ? true : v < 2);
        if (gen.hv.branchy.containsKey(m.cls)) u.pairs = true;
        int n = Gen.slots(u.b.r, disc, comp).size();
        u.weight = (u.pairs ? (long) n * n * 20 : 0) + n * 300L;
        l.add(u);
      }
    }
    l.sort((a, b) -> Long.compare(b.weight, a.weight));
    return l;
  }

  public void visit(Unit u, V v) {
    Rec r = u.b.r;
    String id = u.b.id;
    v.visit(r, () -> id);
    List<Gen.Slot> slots = Gen.slots(r, disc, comp);
    boolean frame = r.m.isFrame();
    for (Gen.Slot s : slots) {
      boolean own = s.rec == r;
      Object[] a = frame && !own && !u.fullBody ? gen.small(s) : gen.alphabet(s);
      Object old = s.get();
      for (int i = 0; i < a.length; i++) {
        final int fi = i;
        s.set(a[i]);
        v.visit(r, () -> id + "/" + s.path + "=#" + fi);
        if (run.stop()) return;
      }
      s.set(old);
    }
    if (!u.pairs) return;
    for (int i = 0; i < slots.size(); i++) {
      Gen.Slot s = slots.get(i);
      if (s.elem > 0) continue;
      Object[] a = gen.small(s);
      Object olds = s.get();
      for (int j = i + 1; j < slots.size(); j++) {
        Gen.Slot t = slots.get(j);
        if (t.elem > 0) continue;
        if (frame && s.rec != r && t.rec != r) continue; // body pairs are explored on the body itself
        if (t.path.startsWith(s.path + ".") || t.path.startsWith(s.path + "[")) continue; // t lives inside s
        Object[] b = gen.small(t);
        Object oldt = t.get();
        for (int x = 0; x < a.length; x++) {
          s.set(a[x]);
          for (int y = 0; y < b.length; y++) {
            final int fx = x, fy = y;
            t.set(b[y]);
            v.visit(r, () -> id + "/" + s.path + "=s" + fx + "/" + t.path + "=s" + fy);
          }
          if (run.stop()) return;
        }
        t.set(oldt);
      }
      s.set(olds);
    }
    triples(u, slots, v);
  }
  /** Where the code compares field values, combinations of three fields. */
  void triples(Unit u, List<Gen.Slot> slots, V v) {
    Rec r = u.b.r;
    if (!gen.hv.branchy.containsKey(r.m.cls)) return;
    String id = u.b.id;
    List<Gen.Slot> own = new ArrayList<>();
    for (Gen.Slot s : slots) if (s.rec == r && s.elem < 0) own.add(s);
    for (int i = 0; i < own.size(); i++) for (int j = i + 1; j < own.size(); j++) for (int k = j + 1; k < own.size(); k++) {
      Gen.Slot s = own.get(i), t = own.get(j), w = own.get(k);
      Object[] a = gen.tiny(s), b = gen.tiny(t), c = gen.tiny(w);
      Object olds = s.get(), oldt = t.get(), oldw = w.get();
      for (int x = 0; x < a.length; x++) { s.set(a[x]); for (int y = 0; y < b.length; y++) { t.set(b[y]); for (int z = 0; z < c.length; z++) {
        final int fx = x, fy = y, fz = z;
        w.set(c[z]);
        v.visit(r, () -> id + "/" + s.path + "=t" + fx + "/" + t.path + "=t" + fy + "/" + w.path + "=t" + fz);
      } } }
      s.set(olds); t.set(oldt); w.set(oldw);
      if (run.stop()) return;
    }
  }
}
