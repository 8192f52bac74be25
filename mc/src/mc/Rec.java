package mc;

import java.util.*;

/** A message value of the reference model. */
public final class Rec {
  public final Spec.Msg m;
  public final Object[] v;
  public Rec(Spec.Msg m) { this.m = m; this.v = new Object[m.fields.size()]; }

  public Rec copy() {
    Rec r = new Rec(m);
    for (int i = 0; i < v.length; i++) r.v[i] = copyVal(v[i]);
    return r;
  }
  static Object copyVal(Object o) {
    if (o instanceof Rec) return ((Rec) o).copy();
    if (o instanceof List) { List<Object> l = new ArrayList<>(); for (Object x : (List<?>) o) l.add(copyVal(x)); return l; }
    return o;
  }

  static boolean eq(Object a, Object b) {
    if (a == b) return true;
    if (a == null || b == null) return false;
    if (a instanceof Float && b instanceof Float) return Float.floatToRawIntBits((Float) a) == Float.floatToRawIntBits((Float) b);
    if (a instanceof Double && b instanceof Double) return Double.doubleToRawLongBits((Double) a) == Double.doubleToRawLongBits((Double) b);
    if (a instanceof List && b instanceof List) {
      List<?> x = (List<?>) a, y = (List<?>) b;
      if (x.size() != y.size()) return false;
      Iterator<?> i = x.iterator(), j = y.iterator();
      while (i.hasNext()) if (!eq(i.next(), j.next())) return false;
      return true;
    }
    if (a instanceof Rec && b instanceof Rec) {
      Rec x = (Rec) a, y = (Rec) b;
      if (x.m != y.m) return false;
      for (int i = 0; i < x.v.length; i++) if (!eq(x.v[i], y.v[i])) return false;
      return true;
    }
    return a.equals(b);
  }
  @Override public boolean equals(Object o) { return o instanceof Rec && eq(this, o); }
  @Override public int hashCode() { return Arrays.deepHashCode(v); }

  /** First difference between two values, for reports. */
  static String diff(Object a, Object b, String path) {
    if (eq(a, b)) return null;
    if (a instanceof Rec && b instanceof Rec && ((Rec) a).m == ((Rec) b).m) {
      Rec x = (Rec) a, y = (Rec) b;
      for (int i = 0; i < x.v.length; i++) {
        String d = diff(x.v[i], y.v[i], path + "." + x.m.fields.get(i).name);
        if (d != null) return d;
      }
    }
    if (a instanceof List && b instanceof List && ((List<?>) a).size() == ((List<?>) b).size()) {
      for (int i = 0; i < ((List<?>) a).size(); i++) {
        String d = diff(((List<?>) a).get(i), ((List<?>) b).get(i), path + "[" + i + "]");
        if (d != null) return d;
      }
    }
    return path + ": expected " + show(a) + " got " + show(b);
  }
  public static String show(Object o) {
    if (o == null) return "null";
    String s;
    if (o instanceof String) { s = "\"" + esc((String) o) + "\""; }
    else if (o instanceof Rec) {
      StringBuilder b = new StringBuilder(((Rec) o).m.simple).append('{');
      for (int i = 0; i < ((Rec) o).v.length; i++)
        b.append(i > 0 ? "," : "").append(((Rec) o).m.fields.get(i).name).append('=').append(show(((Rec) o).v[i]));
      s = b.append('}').toString();
    } else if (o instanceof List) {
      List<?> l = (List<?>) o;
      StringBuilder b = new StringBuilder("[" + l.size() + ":");
      for (int i = 0; i < Math.min(4, l.size()); i++) b.append(i > 0 ? "," : "").append(show(l.get(i)));
      s = b.append(l.size() > 4 ? ",..]" : "]").toString();
    } else s = o.getClass().getSimpleName().charAt(0) + ":" + o;
    return s.length() > 600 ? s.substring(0, 600) + "..." : s;
  }
  static String esc(String s) {
    StringBuilder b = new StringBuilder();
    for (int i = 0; i < s.length() && i < 200; i++) {
      char c = s.charAt(i);
      if (c < 32 || c > 126) b.append(String.format("\\u%04x", (int) c)); else b.append(c);
    }
    if (s.length() > 200) b.append("...(" + s.length() + ")");
    return b.toString();
  }
  @Override public String toString() { return show(this); }
}
