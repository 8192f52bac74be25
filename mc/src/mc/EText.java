package mc;

import io.netty.buffer.*;
import java.lang.invoke.*;
import java.nio.charset.StandardCharsets;
import java.util.*;
import java.util.function.*;
import mc.Spec.*;

/** C13 fixed-width text. */
public final class EText {
  final Run run; final Spec spec; final Gen gen;
  EText(Run run, Spec spec, Harvest hv) { this.run = run; this.spec = spec; gen = new Gen(spec, hv, run.thorough); }

  static final String[] TOK = {"A", " ", "0", "\0", "*", "\u00e9", "\u4e2d", "\ud83d\ude00", "\ud800", "\u007f", "\t", "\u3000"};
  static final String[] ODD = {"a", "e", "A", "\u00e9", "\u00a0", "\u0300", "\u0301", "\u0308", "\u0327", "\u030a", "\u212b", "\u00c5", "\u1100", "\u1161", "\u11a8", "\uac00", "\r", "\n", "\r\n", "\t", "\0", " ", "\u0085", "\u2028", "\u200b", "\u200d", "\u200e", "\ufeff", "\ufffe", "\ufffd", "?", "\uff10", "\uff21", "\u3000", "\u4e2d", "\u0660", "\u0131", "\u0130", "\u00df", "\ufb01", "\ud83d\ude00", "\ud83c\udffb", "\ud800", "\udc00", "\\", "\"", "%", "$", "&", "0", "-", "+", ".", ",", "|", "=", "\u0001", "\u007f"};
  static final String[] ODD3 = {"", "a", " ", "\n", "\u0301", "\ud800", "\udc00", "\ud83d\ude00", "\0"};
  static final char[] PADS = {' ', '0', '\0', '*', 'A'};

  static final class W {
    final Sut sut; final Object o; final MethodHandle w5, w3, r4, r2; final MethodHandle trim;
    final ByteBuf heap = Unpooled.buffer(4096), direct = Unpooled.directBuffer(4096);
    W(Spec spec) {
      sut = Sut.fresh(spec);
      o = sut.mc(spec.msgs.values().iterator().next()).fresh();
      try {
        MethodHandles.Lookup l = MethodHandles.publicLookup();
        Class<?> c = sut.codec;
        w5 = l.findVirtual(c, "writeFixedString", MethodType.methodType(void.class, ByteBuf.class, String.class, int.class, char.class, boolean.class)).asType(MethodType.methodType(void.class, Object.class, ByteBuf.class, String.class, int.class, char.class, boolean.class));
        w3 = l.findVirtual(c, "writeFixedString", MethodType.methodType(void.class, ByteBuf.class, String.class, int.class)).asType(MethodType.methodType(void.class, Object.class, ByteBuf.class, String.class, int.class));
        r4 = l.findVirtual(c, "readFixedString", MethodType.methodType(String.class, ByteBuf.class, int.class, char.class, boolean.class)).asType(MethodType.methodType(String.class, Object.class, ByteBuf.class, int.class, char.class, boolean.class));
        r2 = l.findVirtual(c, "readFixedString", MethodType.methodType(String.class, ByteBuf.class, int.class)).asType(MethodType.methodType(String.class, Object.class, ByteBuf.class, int.class));
        trim = l.findStatic(c, "trimByChar", MethodType.methodType(String.class, String.class, char.class, boolean.class));
      } catch (ReflectiveOperationException e) { throw new Sut.Broken("text helpers of BinaryCodec unusable: " + e, e); }
    }
    void write(ByteBuf b, String s, int n, char pad, boolean left, boolean shortForm) {
      try { if (shortForm) w3.invokeExact(o, b, s, n); else w5.invokeExact(o, b, s, n, pad, left); }
      catch (Throwable t) { throw new Sut.Broken("writing text threw " + Sut.desc(t), t); }
    }
    String read(ByteBuf b, int n, char pad, boolean left, boolean shortForm) {
      try { return shortForm ? (String) r2.invokeExact(o, b, n) : (String) r4.invokeExact(o, b, n, pad, left); }
      catch (Throwable t) { throw new Sut.Broken("reading text threw " + Sut.desc(t), t); }
    }
  }

  String writeCase(W w, String s, int n, char pad, boolean left, boolean sf, boolean direct, int off) {
    ByteBuf b = direct ? w.direct : w.heap;
    b.clear().writeZero(off);
    w.write(b, s, n, pad, left, sf);
    byte[] exp = Ref.fix(s, n, pad, left);
    byte[] got = Bufs.content(b, off, b.writerIndex());
    run.transitions.increment();
    if (!Arrays.equals(exp, got)) return "wrote " + EValues.hex(got, 60) + ", expected " + EValues.hex(exp, 60);
    if (b.readerIndex() != 0) return "writing moved the reader index";
    b.readerIndex(off);
    String back = w.read(b, n, pad, left, sf);
    if (b.readerIndex() != off + n) return "reading consumed " + (b.readerIndex() - off) + " bytes of a field of " + n;
    String e = Ref.unfix(exp, 0, n, pad, left);
    if (!e.equals(back)) return "read " + Rec.show(back) + ", expected " + Rec.show(e);
    run.transitions.increment();
    // text that fits, is well formed and has no pad at the padded edge comes back unchanged
    if (s != null && s.getBytes(StandardCharsets.UTF_8).length <= n && s.equals(new String(s.getBytes(StandardCharsets.UTF_8), StandardCharsets.UTF_8))
        && (s.isEmpty() || s.charAt(left ? 0 : s.length() - 1) != pad) && !s.equals(back))
      return "text that fits came back as " + Rec.show(back);
    return null;
  }
  void go(W w, Supplier<String> key, Supplier<String> c) {
    if (!run.want(key)) return;
    String e;
    try { e = c.get(); } catch (Sut.Broken b) { e = Sut.desc(b); }
    run.traces.increment();
    if (e != null) run.violation(key.get(), e);
  }

  void c13() {
    int depth = run.thorough ? 6 : 5, nt = TOK.length;
    run.extra.put("write_strings", "all strings of up to " + depth + " of " + nt + " code points, widths 0.." + (depth + 4) + ", pads " + PADS.length + ", both sides");
    // (a) writing: every string over the token alphabet
    run.parallel(nt * nt, () -> new W(spec), (w, it) -> {
      List<String> strs = new ArrayList<>();
      if (it == 0) { strs.add(null); strs.add(""); for (String t : TOK) strs.add(t); }
      String two = TOK[it / nt] + TOK[it % nt];
      for (int len = 2; len <= depth; len++) {
        int n = (int) Math.pow(nt, len - 2);
        for (int x = 0; x < n; x++) {
          StringBuilder s = new StringBuilder(two);
          for (int y = x, i = 2; i < len; i++) { s.append(TOK[y % nt]); y /= nt; }
          strs.add(s.toString());
        }
      }
      run.begin(() -> "write/block" + it);
      for (String s : strs) {
        run.state(s == null ? 77 : Run.fp(1, s.getBytes(StandardCharsets.UTF_16BE), 0, s.length() * 2));
        int maxw = s == null || s.length() <= 3 ? depth + 4 : depth + 2;
        for (int n = 0; n <= maxw; n++) for (char pad : PADS) for (int side = 0; side < 2; side++) {
          if (s != null && s.length() > 4 && pad != ' ' && pad != '0' && !run.thorough) continue;
          final int fn = n; final boolean left = side == 1;
          go(w, () -> "write/" + Rec.show(s) + "/w" + fn + "/p" + (int) pad + (left ? "L" : "R"), () -> writeCase(w, s, fn, pad, left, false, false, 0));
        }
        go(w, () -> "write/" + Rec.show(s) + "/short", () -> writeCase(w, s, 6, ' ', false, true, false, 0));
        if (run.stop()) return;
      }
      run.end();
    });
    // (b) long widths and lengths around them, direct and heap buffers, offsets
    List<Integer> widths = new ArrayList<>(List.of(16, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 160, 200, 255, 256, 257, 400, 1000));
    run.parallel(widths, () -> new W(spec), (w, n) -> {
      for (int len = 0; len <= n + 3; len++) {
        List<String> ss = new ArrayList<>();
        ss.add(Gen.text(len, 3));
        if (len > 0) { ss.add(" " + Gen.text(len - 1, 1)); ss.add(Gen.text(len - 1, 1) + " "); ss.add("0" + Gen.text(len - 1, 1)); ss.add(" ".repeat(len)); ss.add("\u00e9".repeat(len / 2) + "x".repeat(len % 2)); ss.add("\u4e2d".repeat(len / 3 + 1)); }
        for (String s : ss) for (char pad : PADS) for (int side = 0; side < 2; side++) for (int dir = 0; dir < 2; dir++) {
          final boolean left = side == 1, direct = dir == 1; final int fl = len;
          run.state(s.hashCode() * 31L + n);
          go(w, () -> "long/" + n + "/" + fl + "/" + Integer.toHexString(s.hashCode()) + "/p" + (int) pad + (left ? "L" : "R") + direct, () -> writeCase(w, s, n, pad, left, false, direct, fl % 5));
        }
      }
    });
    // (b2) every character there is: alone, first, last, in the middle, doubled, before and after a blank; written and read back
    run.extra.put("characters", "all 1114112 code points (lone surrogates included) in 8 places, widths: exact, one less, three more; and all pairs and triples of " + ODD.length + " special ones");
    run.parallel(0x1100, () -> new W(spec), (w, blk) -> {
      run.begin(() -> "char/block" + blk);
      for (int cp = blk << 8; cp < (blk + 1) << 8; cp++) {
        String c = new String(Character.toChars(cp));
        String[] ss = {c, c + "B", "A" + c, "A" + c + "B", c + c, " " + c, c + " ", "AB" + c + "CDEFGHIJKLMNOPQRSTU" + c};
        for (int x = 0; x < ss.length; x++) {
          if (cp > 0xFFFF && x > 3 && !run.thorough && cp % 7 != 0) break;
          String s = ss[x];
          int n = s.getBytes(StandardCharsets.UTF_8).length;
          run.state(Run.fp(1, s.getBytes(StandardCharsets.UTF_16BE), 0, s.length() * 2));
          for (int dn = 0; dn < 3; dn++) {
            final int width = n + (dn == 0 ? 0 : dn == 1 ? -1 : 3);
            final boolean left = (cp + x + dn) % 2 == 1; final char pad = PADS[(cp + x) % (dn == 2 ? 2 : PADS.length)];
            final int fcp = cp, fx = x;
            go(w, () -> "char/" + Integer.toHexString(fcp) + "/" + fx + "/w" + width + "/p" + (int) pad + (left ? "L" : "R"), () -> writeCase(w, s, width, pad, left, false, false, 0));
          }
        }
      }
      run.end();
    });
    run.parallel(ODD.length, () -> new W(spec), (w, it) -> {
      run.begin(() -> "odd/" + it);
      for (String b : ODD) for (String c : ODD3) for (int x = 0; x < 2; x++) {
        String s = x == 0 ? ODD[it] + b + c : "Q" + ODD[it] + b + c + "R";
        int n = s.getBytes(StandardCharsets.UTF_8).length;
        run.state(Run.fp(1, s.getBytes(StandardCharsets.UTF_16BE), 0, s.length() * 2));
        for (int width : new int[] {n, n - 1, n + 2, Math.max(1, n / 2)}) for (int side = 0; side < 2; side++) { final boolean left = side == 1;
          go(w, () -> "odd/" + Rec.show(s) + "/w" + width + left, () -> writeCase(w, s, width, left ? '0' : ' ', left, false, false, 0)); }
      }
      run.end();
    });
    // (c) reading: every byte string over a byte alphabet
    byte[] al = {0, ' ', '0', '*', 'A', 'z', (byte) 0x80, (byte) 0xC3, (byte) 0xA9, (byte) 0xFF};
    int rd = run.thorough ? 7 : 6;
    run.extra.put("read_bytes", "all byte strings of up to " + rd + " bytes over " + al.length + " values");
    run.parallel(al.length * al.length, () -> new W(spec), (w, it) -> {
      byte[] d = new byte[rd + 2];
      run.begin(() -> "read/block" + it);
      for (int len = it == 0 ? 0 : 2; len <= rd; len++) {
        int n = len == 1 ? al.length : (int) Math.pow(al.length, Math.max(0, len - 2));
        for (int x = 0; x < n; x++) {
          if (len == 1) d[0] = al[x];
          else if (len >= 2) { d[0] = al[it / al.length]; d[1] = al[it % al.length]; for (int y = x, i = 2; i < len; i++) { d[i] = al[y % al.length]; y /= al.length; } }
          final int fl = len;
          d[len] = 'A'; // what follows the field is not part of it
          run.state(Run.fp(2, d, 0, len));
          ByteBuf b = w.heap.clear().writeBytes(d, 0, len + 1);
          for (char pad : PADS) for (int side = 0; side < 2; side++) {
            final boolean left = side == 1;
            go(w, () -> "read/" + EValues.hex(Arrays.copyOf(d, fl), 20) + "/p" + (int) pad + (left ? "L" : "R"), () -> {
              b.readerIndex(0);
              String s = w.read(b, fl, pad, left, false);
              run.transitions.increment();
              String e = Ref.unfix(d, 0, fl, pad, left);
              if (b.readerIndex() != fl) return "reading consumed " + b.readerIndex() + " bytes";
              if (!e.equals(s)) return "read " + Rec.show(s) + ", expected " + Rec.show(e);
              try { if (!Ref.trim(e, pad, left).equals((String) w.trim.invokeExact(e, pad, left))) return "trimByChar"; } catch (Throwable t) { return "trimByChar threw " + t; }
              return null;
            });
          }
          go(w, () -> "read/" + EValues.hex(Arrays.copyOf(d, fl), 20) + "/short", () -> {
            b.readerIndex(0);
            String s = w.read(b, fl, ' ', false, true), e = Ref.unfix(d, 0, fl, ' ', false);
            return e.equals(s) ? null : "read " + Rec.show(s) + ", expected " + Rec.show(e);
          });
        }
        if (run.stop()) return;
      }
      run.end();
    });
    // (c2) wider fields: two bytes anywhere take every pair of values over a wider alphabet, and next to each other every one of 256*256
    byte[] wide = {0, ' ', '0', '1', '2', '9', '*', 'A', 'B', 'P', 'Q', 'Z', 'a', 'b', 'p', 'q', 'z', 0x1f, '!', '.', 0x7f, (byte) 0x80, (byte) 0xC3, (byte) 0xA9, (byte) 0xE4, (byte) 0xFF};
    List<int[]> wjobs = new ArrayList<>();
    for (int len : run.thorough ? new int[]{7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 24, 31, 32, 33, 40, 63, 64, 65, 100, 128, 200} : new int[]{7, 8, 10, 12, 16, 20, 32, 64})
      for (int i = 0; i < len; i++) wjobs.add(new int[]{len, i});
    run.extra.put("read_wide", "fields of 7 to " + (run.thorough ? 200 : 64) + " bytes: every two positions x every pair of " + wide.length + " values, neighbours x all 65536");
    run.parallel(wjobs, () -> new W(spec), (w, j) -> {
      int len = j[0], i = j[1];
      run.begin(() -> "wide/" + len + "/" + i);
      byte[] d = new byte[len + 1];
      for (int base = 0; base < (run.thorough ? 3 : 2); base++) {
        for (int k = 0; k < len; k++) d[k] = (byte) (base == 0 ? 'A' + k % 26 : base == 1 ? '0' : ' ');
        d[len] = 'A';
        for (int k = i + 1; k < len; k++) {
          boolean next = k == i + 1 && (i == 0 || k == len - 1 || run.thorough);
          if (!run.thorough && len > 20 && k - i > 2 && k < len - 2 && i > 1) continue;
          byte si = d[i], sk = d[k];
          int na = next ? 256 : wide.length;
          for (int x = 0; x < na; x++) for (int y = 0; y < na; y++) {
            d[i] = next ? (byte) x : wide[x]; d[k] = next ? (byte) y : wide[y];
            run.state(Run.fp(2, d, 0, len));
            ByteBuf b = w.heap.clear().writeBytes(d, 0, len + 1);
            boolean left = (x + y) % 2 == 1; char pad = PADS[(x + y / 2) % PADS.length];
            go(w, () -> "wide/" + EValues.hex(Arrays.copyOf(d, len), 220) + "/p" + (int) pad + (left ? "L" : "R"), () -> {
              b.readerIndex(0);
              String s = w.read(b, len, pad, left, false);
              run.transitions.increment();
              String e = Ref.unfix(d, 0, len, pad, left);
              if (b.readerIndex() != len) return "reading consumed " + b.readerIndex() + " bytes";
              return e.equals(s) ? null : "read " + Rec.show(s) + ", expected " + Rec.show(e);
            });
          }
          d[i] = si; d[k] = sk;
          if (run.stop()) return;
        }
      }
      run.end();
    });
    // (d) every fixed-width field of every message, as declared
    List<Msg> ms = new ArrayList<>(spec.msgs.values());
    run.parallel(ms, () -> Sut.fresh(spec), (sut, m) -> {
      ByteBuf b = Unpooled.buffer(4096);
      for (int v = 0; v < gen.variants(m); v++) for (int style = 0; style < 3; style++) {
        Rec r = gen.base(m, style, 1, v);
        for (Gen.Slot s : Gen.slots(r, false, false)) {
          if (s.t.k != K.FIX) continue;
          Object old = s.get();
          int W = s.t.width;
          List<String> ts = new ArrayList<>();
          ts.add(null); ts.add("");
          String p = String.valueOf(s.t.pad), q = s.t.pad == ' ' ? "0" : " ";
          for (int n = 1; n <= W + 2; n++) { ts.add("x".repeat(n)); ts.add(p.repeat(n)); ts.add(q.repeat(n)); ts.add(p + "x".repeat(n - 1)); ts.add("x".repeat(n - 1) + p); ts.add(q + "x".repeat(n - 1)); ts.add("x".repeat(n - 1) + q); ts.add("x".repeat(n - 1) + "\u00e9"); ts.add("x".repeat(n - 1) + "\u4e2d"); }
          if (style == 1) {
            for (Object x : gen.alphabet(s)) if (x instanceof String) ts.add((String) x);
            for (String x : ODD) for (String y : new String[] {x, "ab" + x, x + "ab", "a" + x + "b", x + x, "a" + x + x + "b", "a" + x + "b" + x + "c", "\r" + x, x + "\u0301", x + " " + x, "0" + x, "x".repeat(Math.max(0, W - x.getBytes(StandardCharsets.UTF_8).length)) + x}) ts.add(y);
            for (int c = 0; c < 256; c++) { ts.add("" + (char) c); ts.add("x" + (char) c); ts.add((char) c + "x"); ts.add("x".repeat(W - 1) + (char) c); }
            ts = new ArrayList<>(new LinkedHashSet<>(ts));
          }
          for (String t : ts) {
            final int fv = v, fst = style;
            Supplier<String> k = () -> m + "/v" + fv + "s" + fst + "/" + s.path + "/" + Rec.show(t);
            if (!run.want(k)) continue;
            s.set(t);
            run.begin(k);
            try {
              Object o = sut.toObj(r);
              b.clear();
              sut.encode(o, b);
              byte[] exp = Ref.encode(r);
              String e = EValues.bytesDiff(exp, EValues.take(b));
              if (e == null) {
                Object x = sut.mc(m).fresh();
                sut.decode(x, b);
                e = Rec.diff(Ref.decode(m, new Ref.In(exp, 0, exp.length)), sut.fromObj(x), m.simple);
              }
              run.state(Run.fp(m.cls.hashCode(), exp, 0, exp.length));
              run.transitions.add(2); run.traces.increment();
              if (e != null) run.violation(k.get(), e);
            } catch (Sut.Broken x) { run.violation(k.get(), Sut.desc(x)); }
          }
          s.set(old);
          if (run.stop()) return;
        }
      }
      run.end();
    });
  }
}
