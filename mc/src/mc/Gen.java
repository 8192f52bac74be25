package mc;

import java.nio.charset.StandardCharsets;
import java.util.*;
import java.util.function.*;
import mc.Spec.*;

/** Finite value spaces: base values and per-field alphabets. All enumerations are deterministic. */
public final class Gen {
  final Spec spec; final Harvest hv; final boolean thorough;
  public Gen(Spec s, Harvest h, boolean thorough) { spec = s; hv = h; this.thorough = thorough; }

  // ---- base values --------------------------------------------------------------------------
  /** style 0: initial values; 1: distinct full values with high bits; 2: distinct small values. */
  public Rec base(Msg m, int style) { return base(m, style, 1, -1); }
  /** variant >=0 selects that entry of the message's own union. */
  public Rec base(Msg m, int style, int salt, int variant) {
    Rec r = new Rec(m);
    Object key = null;
    Field u = m.union();
    if (u != null) {
      List<Object> keys = new ArrayList<>(u.t.reg.table.keySet());
      key = keys.get(variant < 0 ? Math.min(1, keys.size() - 1) : variant);
    }
    for (Field f : m.fields) {
      int s = salt + f.idx;
      if (u != null && f.idx == u.t.disc) r.v[f.idx] = key;
      else if (f.t.k == K.UNION) r.v[f.idx] = base(u.t.reg.table.get(key), style, salt + 3, -1);
      else r.v[f.idx] = val(f.t, style, s);
    }
    return r;
  }
  static final String LET = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz123456789";
  static String text(int len, int salt) {
    StringBuilder b = new StringBuilder();
    for (int i = 0; i < len; i++) b.append(LET.charAt((salt * 7 + i * 3 + i / 61) % LET.length()));
    return b.toString();
  }
  public Object val(Type t, int style, int s) {
    switch (t.k) {
      case INT: case LEN: case SUM: {
        if (style == 0) return Ref.box(0, t.bits);
        long x = 0;
        if (style == 1) for (int i = 0; i < t.bits / 8; i++) x = x << 8 | (0x80 | (s * 11 + i * 5 + 1) & 0x7F);
        else x = (s * 3 + 2) % 100;
        return Ref.box(x, t.bits);
      }
      case FLT: {
        double d = style == 0 ? 0 : style == 1 ? -(s + 0.375) * 1e10 : s + 0.5;
        return t.bits == 32 ? (Object) (float) d : (Object) d;
      }
      case FIX: return style == 0 ? null : style == 1 ? text(t.width, s) : text(Math.max(1, t.width / 2), s + 5);
      case DYN: return style == 0 ? null : style == 1 ? text(20 + s % 7, s) : text(3, s);
      case LIST: {
        if (style == 0) return null;
        List<Object> l = new ArrayList<>();
        for (int i = 0; i < (style == 1 ? 2 : 3); i++) l.add(val(t.elem, t.elem.k == K.OBJ ? style : style, s + 17 * i + 1));
        return l;
      }
      case OBJ: return base(t.obj, style, s, -1);
      default: throw new IllegalStateException();
    }
  }
  public int variants(Msg m) { Field u = m.union(); return u == null ? 1 : u.t.reg.table.size(); }

  // ---- slots ----------------------------------------------------------------------------------
  public static final class Slot {
    public final Rec rec; public final int idx; public final int elem; public final Type t; public final String path; public final Msg m;
    Slot(Rec r, int i, int e, Type t, String p) { rec = r; idx = i; elem = e; this.t = t; path = p; m = r.m; }
    @SuppressWarnings("unchecked")
    public Object get() { return elem < 0 ? rec.v[idx] : ((List<Object>) rec.v[idx]).get(elem); }
    @SuppressWarnings("unchecked")
    public void set(Object o) { if (elem < 0) rec.v[idx] = o; else ((List<Object>) rec.v[idx]).set(elem, o); }
  }
  /** All value positions of a live value. disc: include union discriminators; comp: include computed fields. */
  public static List<Slot> slots(Rec r, boolean disc, boolean comp) {
    List<Slot> o = new ArrayList<>();
    slots(r, "", disc, comp, o);
    return o;
  }
  static void slots(Rec r, String path, boolean disc, boolean comp, List<Slot> o) {
    Field u = r.m.union();
    for (Field f : r.m.fields) {
      String p = path + f.name;
      Object v = r.v[f.idx];
      switch (f.t.k) {
        case LEN: case SUM: if (comp) o.add(new Slot(r, f.idx, -1, f.t, p)); break;
        case UNION: if (v != null) slots((Rec) v, p + ".", disc, comp, o); break;
        case OBJ: o.add(new Slot(r, f.idx, -1, f.t, p)); if (v != null) slots((Rec) v, p + ".", disc, comp, o); break;
        case LIST: {
          o.add(new Slot(r, f.idx, -1, f.t, p));
          List<?> l = (List<?>) v;
          if (l != null && !l.isEmpty())
            for (int i : l.size() == 1 ? new int[] {0} : new int[] {0, l.size() - 1})
              if (l.get(i) instanceof Rec) slots((Rec) l.get(i), p + "[" + i + "].", disc, comp, o);
              else o.add(new Slot(r, f.idx, i, f.t.elem, p + "[" + i + "]"));
          break;
        }
        default:
          if (u != null && f.idx == u.t.disc && !disc) break;
          o.add(new Slot(r, f.idx, -1, f.t, p));
      }
    }
  }

  // ---- alphabets --------------------------------------------------------------------------------
  final Map<String, Object[]> cache = new HashMap<>();
  /** Full alphabet of a slot. */
  public Object[] alphabet(Slot s) { return cached("F", s, () -> full(s.t, s.m)); }
  /** Reduced alphabet for combinations. */
  public Object[] small(Slot s) { return cached("S", s, () -> reduced(s.t, s.m)); }
  synchronized Object[] cached(String kind, Slot s, Supplier<List<Object>> f) {
    String k = kind + s.t + "@" + top(s.m);
    Object[] a = cache.get(k);
    if (a == null) { List<Object> l = new ArrayList<>(); Set<Object> seen = new HashSet<>(); for (Object o : f.get()) if (seen.add(o == null ? "\0null" : o instanceof String ? "s" + o : o)) l.add(o); cache.put(k, a = l.toArray()); }
    return a;
  }
  static String top(Msg m) { return m.cls; }

  static void addInt(Collection<Object> l, int bits, long x) { l.add(Ref.box(x, bits)); }
  List<Object> full(Type t, Msg m) {
    List<Object> l = new ArrayList<>();
    switch (t.k) {
      case INT: case LEN: case SUM: {
        int b = t.bits;
        if (b == 8) { for (int i = 0; i < 256; i++) addInt(l, 8, i); return l; }
        if (b == 16 && thorough) { for (int i = 0; i < 65536; i++) addInt(l, 16, i); return l; }
        for (long i = -3; i <= 300; i++) addInt(l, b, i);
        for (int k = 0; k < b; k++) for (long d = -1; d <= 1; d++) { addInt(l, b, (1L << k) + d); addInt(l, b, -(1L << k) + d); addInt(l, b, ~(1L << k)); }
        addInt(l, b, Long.MAX_VALUE); addInt(l, b, Long.MIN_VALUE); addInt(l, b, Long.MIN_VALUE + 1);
        addInt(l, b, (1L << (b - 1)) - 2);
        for (long p : new long[] {0x0102030405060708L, 0x8182838485868788L, 0x00FF00FF00FF00FFL, 0xFF00FF00FF00FF00L, 0x8000000080000000L, 0x7F7F7F7F7F7F7F7FL, 0x8080808080808080L, 0x2020202020202020L, 0x3030303030303030L, 0x0000000100000000L, 0x00000000FFFFFFFFL, 0xFFFFFFFF00000000L, 0x5555555555555555L, 0xAAAAAAAAAAAAAAAAL}) {
          addInt(l, b, p); addInt(l, b, p >>> 32);
        }
        long p10 = 1;
        for (int k = 0; k < 19; k++, p10 *= 10) for (long d = -1; d <= 1; d++) { addInt(l, b, p10 + d); addInt(l, b, -p10 + d); addInt(l, b, 5 * p10 + d); }
        for (long x : new long[] {999, 9999, 19700101, 20240101, 20240229, 20241231, 93000, 93000000, 20240102093000000L, 20240229235959999L, 123456789, 1234567890123L}) addInt(l, b, x);
        for (long x : hv.intsFor(m.cls, false)) for (long d = -1; d <= 1; d++) { addInt(l, b, x + d); addInt(l, b, -x + d); }
        if (thorough) for (long i = -5000; i <= 70000; i += 1) addInt(l, b, i);
        return l;
      }
      case FLT: {
        double[] ds = {0.0, -0.0, 1, -1, 0.5, 1.5, 2, 3, 10, 100, 0.1, 0.01, 1e-3, 99.99, 123456.789, -123456.789, 1e7, 1e9, 1e10, 1e15, 1e-10, 16777216, 16777217, 9007199254740991.0, 9007199254740993.0,
          Float.MAX_VALUE, -Float.MAX_VALUE, Float.MIN_VALUE, -Float.MIN_VALUE, Float.MIN_NORMAL, Double.MAX_VALUE, Double.MIN_VALUE, Double.MIN_NORMAL, Double.POSITIVE_INFINITY, Double.NEGATIVE_INFINITY, Double.NaN, Math.PI, -Math.E, Integer.MAX_VALUE, Integer.MIN_VALUE, Long.MAX_VALUE};
        for (double d : ds) l.add(t.bits == 32 ? (Object) (float) d : (Object) d);
        for (double d : hv.dblsFor(m.cls)) l.add(t.bits == 32 ? (Object) (float) d : (Object) d);
        for (int k = 0; k < t.bits; k++) {
          if (t.bits == 32) { float f = Float.intBitsToFloat(1 << k); if (f == f) l.add(f); f = Float.intBitsToFloat(0x3F800000 ^ (1 << k)); if (f == f) l.add(f); }
          else { double f = Double.longBitsToDouble(1L << k); if (f == f) l.add(f); f = Double.longBitsToDouble(0x3FF0000000000000L ^ (1L << k)); if (f == f) l.add(f); }
        }
        for (long x : hv.intsFor(m.cls, false)) l.add(t.bits == 32 ? (Object) (float) x : (Object) (double) x);
        return l;
      }
      case FIX: return texts(t.width, t.pad, t.width + 3, m);
      case DYN: {
        List<Object> o = texts(40, ' ', 43, m);
        TreeSet<Integer> lens = new TreeSet<>();
        for (int i = 0; i <= (thorough ? 1030 : 300); i++) lens.add(i);
        for (int k = 8; k <= 14; k++) for (int d = -1; d <= 1; d++) lens.add((1 << k) + d);
        for (long x : hv.intsFor(m.cls, false)) for (int d = -1; d <= 1; d++) if (x + d >= 0 && x + d < 20000) lens.add((int) x + d);
        for (int n : lens) o.add(text(n, n));
        for (int n : new int[] {127, 128, 255, 256}) { o.add("\u4e2d".repeat(n / 3) + text(n % 3, 1)); o.add("\u00e9".repeat(n)); }
        return o;
      }
      case LIST: {
        TreeSet<Integer> sizes = new TreeSet<>(List.of(0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 126, 127, 128, 129, 254, 255, 256, 257, 300, 511, 512, 513));
        for (long x : hv.intsFor(m.cls, true)) for (int d = -1; d <= 1; d++) if (x + d >= 0 && x + d < 2000) sizes.add((int) x + d);
        l.add(null);
        for (int n : sizes) l.add(list(t, n, 1));
        if (t.elem.k == K.DYN || t.elem.k == K.FIX) {
          l.add(new ArrayList<>(List.of("", "a", "", "")));
          l.add(new ArrayList<>(List.of("a", "a", "a")));
        }
        l.add(repeat(t, 3));
        l.addAll(arranged(t));
        return l;
      }
      case OBJ: for (int s = 0; s < 3; s++) l.add(base(t.obj, s)); return l;
      default: throw new IllegalStateException();
    }
  }
  public List<Object> list(Type t, int n, int style) {
    List<Object> l = new ArrayList<>(n);
    for (int i = 0; i < n; i++) l.add(elem(t.elem, i, style));
    return l;
  }
  static final String[] ORDERS = {"ba", "cba", "dcba", "edcba", "fedcba", "gfedcba", "bcda", "adcb", "abdc", "badc", "cdab", "aa", "aaa", "aaaa", "aaaaa", "aab", "abb", "aba", "abab", "abba", "abca", "bcaa", "aabb", "aaba", "abaa", "zab", "azb", "abz", "zz", "zaz", "azza", "ABC", "CBA", "AA", "AAA", "AAB", "ABA", "ABBA", "AbA", "zAz", "aABb"};
  /** Groups whose elements come in other orders, repeat, or have initial values (z); capitals repeat as the same object. */
  public List<Object> arranged(Type t) {
    List<Object> r = new ArrayList<>();
    Object[] same = new Object[8];
    for (String o : ORDERS) {
      List<Object> l = new ArrayList<>();
      for (char c : o.toCharArray()) {
        if (c == 'z') l.add(t.elem.k == K.FIX || t.elem.k == K.DYN ? "" : val(t.elem, 0, 1));
        else if (c < 'a') { if (same[c - 'A'] == null) same[c - 'A'] = elem(t.elem, 2 + c - 'A', 1); l.add(same[c - 'A']); }
        else l.add(elem(t.elem, c - 'a' + 1, 1));
      }
      r.add(l);
    }
    return r;
  }
  List<Object> repeat(Type t, int n) {
    List<Object> l = new ArrayList<>(n);
    for (int i = 0; i < n; i++) l.add(elem(t.elem, 4, 1));
    return l;
  }
  Object elem(Type t, int i, int style) {
    switch (t.k) {
      case INT: return Ref.box(i * 2654435761L + 1, t.bits);
      case FLT: return t.bits == 32 ? (Object) (i + 0.25f) : (Object) (i + 0.25);
      case FIX: return text(1 + i % t.width, i);
      case DYN: return text(i % 5, i);
      case OBJ: { Rec r = base(t.obj, i % 2 == 0 ? 2 : 1, i % 50, -1); for (Field f : t.obj.fields) if (f.t.k == K.INT) r.v[f.idx] = Ref.box(i * 31L + f.idx, f.t.bits); else if (f.t.k == K.LIST && i > 3) r.v[f.idx] = i % 3 == 0 ? null : list(f.t, i % 3, 1); return r; }
      default: throw new IllegalStateException();
    }
  }

  List<Object> texts(int w, char pad, int maxLen, Msg m) {
    List<Object> l = new ArrayList<>();
    l.add(null); l.add("");
    for (int n = 1; n <= maxLen; n++) { l.add(text(n, n)); if (n <= w) l.add(String.valueOf(pad).repeat(n)); }
    for (char c = 0; c < 128; c++) {
      l.add(String.valueOf(c));
      if (w > 1) { l.add("a" + c); l.add(c + "a"); }
      if (w > 2) l.add("a" + c + "b");
      if (w > 3) { l.add(text(w - 1, c) + c); l.add(c + text(w - 1, c)); }
    }
    String[] cps = {"\u0080", "\u00a0", "\u00df", "\u00e9", "\u00ff", "\u0130", "\u0301", "\u07ff", "\u0800", "\u200b", "\u2028", "\u3000", "\u4e2d", "\ufeff", "\ufffd", "\uffff", "\ud83d\ude00", "\udbff\udfff"};
    for (String c : cps) {
      l.add(c); l.add(c + c); l.add("a" + c); l.add(c + "a"); l.add("a" + c + "b");
      int k = c.getBytes(StandardCharsets.UTF_8).length;
      for (int d = 0; d <= k; d++) if (w - d >= 0) l.add(text(w - d, 3) + c); // exact fit, and cut inside the character
      if (w >= k) { l.add(c.repeat(w / k)); l.add(c.repeat(w / k) + "x".repeat(w % k)); l.add(c.repeat(w / k + 1)); }
    }
    String[] more = {"e\u0301", "000123", "0", "00", "-1", "+1", "1e5", "NaN", "null", "true", "NULL", "N/A", "abc", "ABC", "aBc", "a b", "a  b", " a", "a ", " a ", "\ta", "a\t", "a\n", "\r\n", "a\0", "\0a", "a\0b", "0a", "a0", "%s", "\\", "\"q\"", "a,b", "1,000", "3.14", "010", "001", "100", "  ", "   ", "a" + pad, pad + "a", "" + pad + pad + "a", "a" + pad + pad, "a" + pad + "b", "" + pad + "a" + pad};
    for (String s : more) l.add(s);
    if (w >= 3) for (String s : new String[] {"A" + " ".repeat(w - 2) + "B", "A" + String.valueOf(pad).repeat(w - 2) + "B", " " + text(w - 1, 2), text(w - 1, 2) + " ", " ".repeat(w - 1) + "Z", "Z" + " ".repeat(w - 1), "0".repeat(w - 1) + "Z", "9".repeat(w), "0".repeat(w)}) l.add(s);
    for (String s : hv.strsFor(m.cls, false)) { l.add(s); l.add(s + "x"); l.add("x" + s); }
    for (long x : hv.intsFor(m.cls, false)) {
      if (x > 31 && x < 0x10000 && !(x >= 0xD800 && x < 0xE000)) { char c = (char) x; l.add("" + c); if (w > 1) { l.add("x" + c); l.add(c + "x"); } }
      l.add(Long.toString(x));
    }
    l.removeIf(o -> o != null && ((String) o).getBytes(StandardCharsets.UTF_8).length > maxLen + 4);
    return l;
  }

  List<Object> reduced(Type t, Msg m) {
    List<Object> l = new ArrayList<>();
    switch (t.k) {
      case INT: case LEN: case SUM: {
        for (long x : new long[] {0, 1, -1}) addInt(l, t.bits, x);
        addInt(l, t.bits, 1L << (t.bits - 1));
        int n = 0;
        for (long x : hv.intsFor(m.cls, true)) { long lim = t.bits == 64 ? Long.MAX_VALUE : (1L << t.bits) - 1; if (x <= lim && x >= -lim && n++ < 12) { addInt(l, t.bits, x); addInt(l, t.bits, x + 1); } }
        return l;
      }
      case FLT: for (double d : new double[] {0, -1.5}) l.add(t.bits == 32 ? (Object) (float) d : (Object) d); return l;
      case FIX: case DYN: {
        int w = t.k == K.FIX ? t.width : 12;
        l.add(null); l.add("1"); l.add("Y"); l.add(text(w, 9));
        if (w > 2) l.add("\u00e9");
        int n = 0;
        for (String s : hv.strsFor(m.cls, true)) if (s.getBytes(StandardCharsets.UTF_8).length <= w && s.length() > 0 && n++ < 12) l.add(s);
        n = 0;
        for (long x : hv.intsFor(m.cls, true)) if (x > 32 && x < 127 && n++ < 8) l.add("" + (char) x);
        if (t.k == K.DYN) l.add(text(130, 2));
        return l;
      }
      case LIST: l.add(null); l.add(list(t, 1, 1)); l.add(list(t, 5, 1)); return l;
      case OBJ: l.add(base(t.obj, 0)); l.add(base(t.obj, 1)); return l;
      default: throw new IllegalStateException();
    }
  }

  /** A few values for combinations of three fields: initial, small, negative, and what the class itself compares with. */
  public Object[] tiny(Slot s) { return cached("T", s, () -> tiny(s.t, s.m)); }
  List<Object> tiny(Type t, Msg m) {
    List<Object> l = new ArrayList<>();
    switch (t.k) {
      case INT: case LEN: case SUM: {
        addInt(l, t.bits, 0); addInt(l, t.bits, 7); addInt(l, t.bits, -7);
        long lim = t.bits == 64 ? Long.MAX_VALUE : (1L << t.bits) - 1;
        int n = 0;
        for (long x : hv.ownInts(m.cls)) if (x > 2 && x <= lim && hv.freq.getOrDefault(x, 0) <= 12 && n++ < 6) { addInt(l, t.bits, x); addInt(l, t.bits, x + 1); }
        return l;
      }
      case FIX: case DYN: {
        int w = t.k == K.FIX ? t.width : 12, n = 0;
        l.add(null); l.add("1"); l.add(text(Math.min(w, 3), 9));
        for (String x : hv.ownStrs(m.cls)) if (x.length() > 0 && x.getBytes(StandardCharsets.UTF_8).length <= w && n++ < 5) l.add(x);
        for (long x : hv.ownInts(m.cls)) if (x > 32 && x < 127 && hv.freq.getOrDefault(x, 0) <= 12 && n++ < 8) l.add("" + (char) x);
        return l;
      }
      case LIST: l.add(null); l.add(list(t, 1, 1)); return l;
      default: return new ArrayList<>(Arrays.asList(reduced(t, m).get(0)));
    }
  }

  // ---- uncommon shapes ---------------------------------------------------------------------------
  public static final String[] SHAPES = {"short", "over", "wide", "none"};
  /** The base value with all its texts short, too long, in wide characters or absent, and groups of other sizes. */
  public Rec shaped(Msg m, int variant, int shape) {
    Rec r = base(m, 1, 1, variant);
    int n = 0;
    for (Slot s : slots(r, false, false)) {
      if (s.t.k == K.LIST && s.t.elem.k != K.OBJ) { s.set(shape == 3 ? null : list(s.t, shape + 1, 1)); continue; }
      if (s.t.k == K.LIST) { if (shape == 3) s.set(null); continue; }
      if (s.elem >= 0 || s.t.k != K.FIX && s.t.k != K.DYN) continue;
      int w = s.t.k == K.FIX ? s.t.width : 30;
      n++;
      switch (shape) {
        case 0: s.set(n % 3 == 0 ? null : n % 3 == 1 ? "a" : ""); break;
        case 1: s.set(text(s.t.k == K.FIX ? w + 1 + n % 9 : 300 + n, n)); break;
        case 2: s.set(n % 2 == 0 ? "\u4e2d".repeat(w) : "\u00e9".repeat((w + 1) / 2)); break;
        default: s.set(n % 2 == 0 ? null : "");
      }
    }
    return r;
  }
  public List<Base> shapes(Msg m) {
    List<Base> l = new ArrayList<>();
    for (int v = 0; v < variants(m); v++) for (int i = 0; i < SHAPES.length; i++) l.add(new Base(shaped(m, v, i), m + "/" + SHAPES[i] + (m.union() == null ? "" : "v" + v)));
    return l;
  }

  // ---- base value lists ---------------------------------------------------------------------------
  public static final class Base { public final Rec r; public final String id; Base(Rec r, String id) { this.r = r; this.id = id; } }
  /** All base values of a message: 3 styles x its union variants. */
  public List<Base> bases(Msg m, int... styles) {
    if (styles.length == 0) styles = new int[] {0, 1, 2};
    List<Base> l = new ArrayList<>();
    for (int v = 0; v < variants(m); v++) for (int s : styles) {
      l.add(new Base(base(m, s, 1, v), m + "/s" + s + (m.union() == null ? "" : "v" + v)));
    }
    return l;
  }
}
