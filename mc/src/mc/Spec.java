package mc;

import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;

/** The published wire layout (spec/layout.txt): the reference model's static part. */
public final class Spec {
  public enum K { INT, FLT, FIX, DYN, LIST, OBJ, UNION, LEN, SUM }

  public static final class Type {
    public K k;
    public int bits;          // INT, FLT, LEN, SUM; prefix width for DYN, LIST
    public boolean le;
    public int width;         // FIX
    public char pad;          // FIX
    public boolean left;      // FIX
    public Type elem;         // LIST
    public Msg obj;           // OBJ
    public String ref;        // OBJ simple name, LEN: body field, SUM: algorithm, UNION: discriminator field
    public Registry reg;      // UNION
    public int disc = -1;     // UNION: index of the discriminator field
    public String src;
    @Override public String toString() { return src; }
  }

  public static final class Field { public String name; public Type t; public int idx; }

  public static final class Msg {
    public String cls, pkg, simple;
    public List<Field> fields = new ArrayList<>();
    public List<Registry> regs = new ArrayList<>();
    public Field f(String n) { for (Field f : fields) if (f.name.equals(n)) return f; return null; }
    public Field union() { for (Field f : fields) if (f.t.k == K.UNION) return f; return null; }
    public Field byKind(K k) { for (Field f : fields) if (f.t.k == k) return f; return null; }
    public boolean isFrame() { Field u = union(); return u != null && !u.t.reg.keyType.equals("String"); }
    @Override public String toString() { return proto() + "." + simple; }
    public String proto() { String[] p = cls.split("\\."); return p[2]; }
  }

  public static final class Registry {
    public String factory, keyType; // factory: binary class name, "...$-" when private to the message
    public Msg owner;
    public LinkedHashMap<Object, Msg> table = new LinkedHashMap<>();
    public LinkedHashMap<Object, String> cls = new LinkedHashMap<>();
    public boolean isPublic() { return !factory.endsWith("$-"); }
    public boolean reverse;
    public String toString() { return owner + "/" + factory.substring(factory.indexOf('$') + 1); }
  }

  public final LinkedHashMap<String, Msg> msgs = new LinkedHashMap<>();
  public final List<Registry> regs = new ArrayList<>();

  static Type type(String s) {
    Type t = new Type();
    t.src = s;
    String[] p = s.split(":", 2);
    String h = p[0];
    if (h.matches("i(8|16|32|64)(le|be)?|f(32|64)(le|be)?")) {
      t.k = h.charAt(0) == 'i' ? K.INT : K.FLT;
      t.le = h.endsWith("le");
      t.bits = Integer.parseInt(h.replaceAll("[^0-9]", ""));
      return t;
    }
    switch (h) {
      case "fix": {
        String[] q = p[1].split(":");
        t.k = K.FIX;
        t.width = Integer.parseInt(q[0]);
        t.pad = q[1].equals("SP") ? ' ' : q[1].equals("ZERO") ? '0' : '\0';
        t.left = q[2].equals("L");
        return t;
      }
      case "dyn": { Type x = type(p[1]); t.k = K.DYN; t.bits = x.bits; t.le = x.le; return t; }
      case "list": {
        String[] q = p[1].split(":", 2);
        Type x = type(q[0]);
        t.k = K.LIST; t.bits = x.bits; t.le = x.le; t.elem = type(q[1]);
        return t;
      }
      case "obj": t.k = K.OBJ; t.ref = p[1]; return t;
      case "union": { String[] q = p[1].split(":"); t.k = K.UNION; t.ref = q[0] + ":" + q[1]; return t; }
      case "len": case "sum": {
        String[] q = p[1].split(":");
        Type x = type(q[0]);
        t.k = h.equals("len") ? K.LEN : K.SUM; t.bits = x.bits; t.le = x.le; t.ref = q[1];
        return t;
      }
      default: throw new IllegalArgumentException("layout type " + s);
    }
  }

  public static Spec load(Path f) throws IOException {
    Spec sp = new Spec();
    Msg cur = null; Registry reg = null;
    for (String line : Files.readAllLines(f, StandardCharsets.UTF_8)) {
      if (line.isBlank() || line.startsWith("#")) continue;
      String[] w = line.trim().split(" +");
      if (w[0].equals("message") && !line.startsWith(" ")) {
        cur = new Msg(); reg = null;
        cur.cls = w[1];
        cur.pkg = w[1].substring(0, w[1].lastIndexOf('.') + 1);
        cur.simple = w[1].substring(cur.pkg.length());
        sp.msgs.put(cur.cls, cur);
      } else if (w[0].equals("registry") && !line.startsWith(" ")) {
        reg = new Registry();
        reg.factory = w[1]; reg.keyType = w[2];
        reg.owner = sp.msgs.get(w[1].substring(0, w[1].lastIndexOf('$')));
        if (reg.owner == null) throw new IOException("registry before message: " + line);
        reg.owner.regs.add(reg);
        sp.regs.add(reg);
      } else if (reg != null) {
        Object key = reg.keyType.equals("String") ? w[0]
            : reg.keyType.equals("Short") ? (Object) Short.valueOf(w[0]) : (Object) Integer.valueOf(w[0]);
        if (w.length > 2) reg.reverse = true;
        reg.cls.put(key, w[1]);
      } else {
        Field fl = new Field();
        fl.name = w[0]; fl.t = type(w[1]); fl.idx = cur.fields.size();
        cur.fields.add(fl);
      }
    }
    for (Registry r : sp.regs)
      for (Map.Entry<Object, String> e : r.cls.entrySet()) r.table.put(e.getKey(), sp.resolve(r.owner, e.getValue()));
    for (Msg m : sp.msgs.values()) for (Field fl : m.fields) sp.link(m, fl.t);
    return sp;
  }

  Msg resolve(Msg in, String simple) {
    Msg m = msgs.get(in.cls + "$" + simple);
    if (m == null) m = msgs.get(in.pkg + simple);
    if (m == null) throw new IllegalArgumentException("unknown class " + simple + " in " + in.cls);
    return m;
  }

  void link(Msg m, Type t) {
    if (t.k == K.OBJ) t.obj = resolve(m, t.ref);
    if (t.k == K.LIST) link(m, t.elem);
    if (t.k == K.UNION) {
      String[] q = t.ref.split(":");
      t.disc = m.f(q[0]).idx;
      for (Registry r : m.regs) if (r.factory.endsWith("$" + q[1])) t.reg = r;
      if (t.reg == null) throw new IllegalArgumentException("no registry " + t.ref + " in " + m.cls);
    }
  }
}
