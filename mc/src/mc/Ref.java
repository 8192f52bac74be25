package mc;

import java.nio.charset.StandardCharsets;
import java.util.*;
import mc.Spec.*;

/** Reference encoder and decoder: interprets the layout table, shares no code with the library. */
public final class Ref {
  static final class Out {
    byte[] b = new byte[256]; int n; long steps;
    /** offsets of length prefixes: {offset, bytes, kind(0 text,1 group,2 frame len), le, value} */
    List<long[]> prefixes;
    void u8(int x) { if (n == b.length) b = Arrays.copyOf(b, n * 2); b[n++] = (byte) x; }
    void num(long x, int bits, boolean le) {
      int k = bits / 8;
      for (int i = 0; i < k; i++) u8((int) (x >>> (8 * (le ? i : k - 1 - i))));
    }
    void set(int pos, long x, int bits, boolean le) {
      int k = bits / 8;
      for (int i = 0; i < k; i++) b[pos + i] = (byte) (x >>> (8 * (le ? i : k - 1 - i)));
    }
    void bytes(byte[] x, int len) {
      while (n + len > b.length) b = Arrays.copyOf(b, b.length * 2);
      System.arraycopy(x, 0, b, n, len); n += len;
    }
    byte[] done() { return Arrays.copyOf(b, n); }
  }

  public static final class Truncated extends RuntimeException {
    Truncated() { super(null, null, false, false); }
  }
  public static final class Unknown extends RuntimeException {
    Unknown() { super(null, null, false, false); }
  }

  static long toLong(Object o) { return ((Number) o).longValue(); }

  static byte[] fix(String s, int width, char pad, boolean left) {
    byte[] o = new byte[width];
    byte[] b = s == null ? new byte[0] : s.getBytes(StandardCharsets.UTF_8);
    int k = Math.min(b.length, width);
    Arrays.fill(o, (byte) pad);
    System.arraycopy(b, 0, o, left ? width - k : 0, k);
    return o;
  }
  static String trim(String s, char pad, boolean left) {
    int i = 0, j = s.length();
    if (left) while (i < j && s.charAt(i) == pad) i++;
    else while (j > i && s.charAt(j - 1) == pad) j--;
    return s.substring(i, j);
  }
  static String unfix(byte[] d, int off, int width, char pad, boolean left) {
    return trim(new String(d, off, width, StandardCharsets.UTF_8), pad, left);
  }

  static int crc32(byte[] d, int off, int len) {
    int c = -1;
    for (int i = 0; i < len; i++) {
      c ^= d[off + i] & 0xFF;
      for (int k = 0; k < 8; k++) c = (c & 1) != 0 ? (c >>> 1) ^ 0xEDB88320 : c >>> 1;
    }
    return ~c;
  }
  static int crc16(byte[] d, int off, int len) {
    int c = 0xFFFF;
    for (int i = 0; i < len; i++) {
      c ^= d[off + i] & 0xFF;
      for (int k = 0; k < 8; k++) c = (c & 1) != 0 ? (c >>> 1) ^ 0xA001 : c >>> 1;
    }
    return c & 0xFFFF;
  }
  static int sum8(byte[] d, int off, int len) {
    int s = 0;
    for (int i = 0; i < len; i++) s += d[off + i] & 0xFF;
    return s & 0xFF;
  }
  public static int checksum(String alg, byte[] d, int off, int len) {
    switch (alg) {
      case "CRC16": return crc16(d, off, len);
      case "CRC32": {
        java.util.zip.CRC32 z = new java.util.zip.CRC32();
        z.update(d, off, len);
        return (int) z.getValue();
      }
      case "SSE_BIN": case "SZSE_BIN": return sum8(d, off, len);
      default: throw new IllegalArgumentException(alg);
    }
  }

  public static byte[] encode(Rec r) { Out o = new Out(); enc(r, o); return o.done(); }
  public static List<long[]> prefixes(Rec r) { Out o = new Out(); o.prefixes = new ArrayList<>(); enc(r, o); return o.prefixes; }

  static void enc(Rec r, Out o) {
    int start = o.n;
    int lenPos = -1; Type lenT = null; int lenIdx = -1;
    for (Field f : r.m.fields) {
      Object v = r.v[f.idx];
      o.steps++;
      if (f.t.k == K.LEN) {
        lenPos = o.n; lenT = f.t; lenIdx = f.idx;
        o.num(0, f.t.bits, f.t.le);
      } else if (f.t.k == K.SUM) {
        o.num(checksum(f.t.ref, o.b, start, o.n - start), f.t.bits, f.t.le);
      } else {
        int before = o.n;
        encVal(f.t, v, o);
        if (lenT != null && f.name.equals(lenT.ref)) {
          o.set(lenPos, o.n - before, lenT.bits, lenT.le);
          if (o.prefixes != null) o.prefixes.add(new long[] {lenPos, lenT.bits / 8, 2, lenT.le ? 1 : 0, o.n - before});
        }
      }
    }
  }

  static void encVal(Type t, Object v, Out o) {
    switch (t.k) {
      case INT: o.num(toLong(v), t.bits, t.le); break;
      case FLT: o.num(t.bits == 32 ? Float.floatToRawIntBits((Float) v) : Double.doubleToRawLongBits((Double) v), t.bits, t.le); break;
      case FIX: o.bytes(fix((String) v, t.width, t.pad, t.left), t.width); break;
      case DYN: {
        byte[] b = v == null ? new byte[0] : ((String) v).getBytes(StandardCharsets.UTF_8);
        if (o.prefixes != null) o.prefixes.add(new long[] {o.n, t.bits / 8, 0, t.le ? 1 : 0, b.length});
        o.num(b.length, t.bits, t.le);
        o.bytes(b, b.length);
        break;
      }
      case LIST: {
        List<?> l = v == null ? Collections.emptyList() : (List<?>) v;
        if (o.prefixes != null) o.prefixes.add(new long[] {o.n, t.bits / 8, 1, t.le ? 1 : 0, l.size()});
        o.num(l.size(), t.bits, t.le);
        for (Object x : l) encVal(t.elem, x, o);
        break;
      }
      case OBJ: enc((Rec) v, o); break;
      case UNION: if (v != null) enc((Rec) v, o); break;
      default: throw new IllegalStateException();
    }
  }

  /** The field values of the message object after encoding (computed fields filled in). */
  public static Rec afterEncode(Rec r) {
    Rec c = r.copy();
    byte[] full = encode(r);
    // nested computed fields (frames are only nested when a frame is registered as a body)
    for (Field f : c.m.fields) {
      if (f.t.k == K.UNION && c.v[f.idx] != null) c.v[f.idx] = afterEncode((Rec) c.v[f.idx]);
    }
    int n = full.length;
    for (Field f : c.m.fields) {
      if (f.t.k == K.LEN) {
        Object body = r.v[r.m.f(f.t.ref).idx];
        c.v[f.idx] = (int) (body == null ? 0 : encode((Rec) body).length);
      } else if (f.t.k == K.SUM) {
        int w = f.t.bits / 8;
        long x = 0;
        for (int i = 0; i < w; i++) x |= (full[n - w + i] & 0xFFL) << (8 * (f.t.le ? i : w - 1 - i));
        c.v[f.idx] = (int) x;
      }
    }
    return c;
  }

  static final class In {
    final byte[] d; int p; final int end; long steps;
    In(byte[] d, int p, int end) { this.d = d; this.p = p; this.end = end; }
    long num(int bits, boolean le) {
      int k = bits / 8;
      if (end - p < k) throw new Truncated();
      long x = 0;
      for (int i = 0; i < k; i++) x |= (d[p + i] & 0xFFL) << (8 * (le ? i : k - 1 - i));
      p += k;
      return x;
    }
  }
  static Object box(long x, int bits) {
    switch (bits) {
      case 8: return (byte) x;
      case 16: return (short) x;
      case 32: return (int) x;
      default: return x;
    }
  }

  public static Rec decode(Msg m, In in) {
    Rec r = new Rec(m);
    for (Field f : m.fields) {
      in.steps++;
      if (f.t.k == K.UNION) {
        Object key = r.v[f.t.disc];
        Msg b = f.t.reg.table.get(key);
        if (b == null) throw new Unknown();
        r.v[f.idx] = decode(b, in);
      } else r.v[f.idx] = decVal(f.t, in);
    }
    return r;
  }
  static Object decVal(Type t, In in) {
    switch (t.k) {
      case INT: case LEN: case SUM: return box(in.num(t.bits, t.le), t.bits);
      case FLT: {
        long x = in.num(t.bits, t.le);
        return t.bits == 32 ? (Object) Float.intBitsToFloat((int) x) : (Object) Double.longBitsToDouble(x);
      }
      case FIX: {
        if (in.end - in.p < t.width) throw new Truncated();
        String s = unfix(in.d, in.p, t.width, t.pad, t.left);
        in.p += t.width;
        return s;
      }
      case DYN: {
        long n = in.num(t.bits, t.le);
        if (n > in.end - in.p) throw new Truncated();
        if (n == 0) return null;
        String s = new String(in.d, in.p, (int) n, StandardCharsets.UTF_8);
        in.p += n;
        return s;
      }
      case LIST: {
        long n = in.num(t.bits, t.le);
        if (n == 0) return null;
        List<Object> l = new ArrayList<>();
        for (long i = 0; i < n; i++) {
          Object x = decVal(t.elem, in);
          l.add(x == null && t.elem.k == K.DYN ? "" : x);
        }
        return l;
      }
      case OBJ: return decode(t.obj, in);
      default: throw new IllegalStateException();
    }
  }

  /** What a round trip may return instead of a value: only padding normalisation. */
  public static Rec canon(Rec r) {
    Rec c = new Rec(r.m);
    for (Field f : r.m.fields) c.v[f.idx] = canonVal(f.t, r.v[f.idx]);
    return c;
  }
  static Object canonVal(Type t, Object v) {
    switch (t.k) {
      case FIX: return v == null ? "" : trim((String) v, t.pad, t.left);
      case DYN: return v == null || ((String) v).isEmpty() ? null : v;
      case LIST: {
        if (v == null || ((List<?>) v).isEmpty()) return null;
        List<Object> l = new ArrayList<>(((List<?>) v).size());
        for (Object x : (List<?>) v) { Object y = canonVal(t.elem, x); l.add(y == null && t.elem.k == K.DYN ? "" : y); }
        return l;
      }
      case OBJ: return v == null ? null : canon((Rec) v);
      case UNION: return v == null ? null : canon((Rec) v);
      default: return v;
    }
  }
  /** Can the value be represented (text fits its field, prefix fits, well-formed text)? */
  static boolean fits(Rec r) {
    for (Field f : r.m.fields) if (!fitsVal(f.t, r.v[f.idx])) return false;
    return true;
  }
  static boolean fitsVal(Type t, Object v) {
    switch (t.k) {
      case FIX: return v == null || ((String) v).getBytes(StandardCharsets.UTF_8).length <= t.width;
      case DYN: return v == null || t.bits > 16 || ((String) v).getBytes(StandardCharsets.UTF_8).length < (1 << t.bits);
      case LIST:
        if (v == null) return true;
        if (t.bits <= 16 && ((List<?>) v).size() >= (1 << t.bits)) return false;
        for (Object x : (List<?>) v) if (!fitsVal(t.elem, x)) return false;
        return true;
      case OBJ: case UNION: return v == null || fits((Rec) v);
      default: return true;
    }
  }
}
