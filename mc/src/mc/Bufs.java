package mc;

import io.netty.buffer.*;
import java.util.*;

/** Buffers of every kind holding given bytes. */
public final class Bufs {
  public interface Maker { ByteBuf make(byte[] all, int ri, int wi); }
  static ByteBuf at(ByteBuf b, int ri, int wi) { return b.setIndex(ri, wi); }

  static byte[] around(byte[] all, int pre, int post) {
    byte[] x = new byte[pre + all.length + post];
    Arrays.fill(x, (byte) 0x7E);
    System.arraycopy(all, 0, x, pre, all.length);
    return x;
  }
  static CompositeByteBuf pieces(byte[] all, int... cuts) {
    CompositeByteBuf c = Unpooled.compositeBuffer(Math.max(16, all.length + 4));
    int p = 0;
    for (int i = 0; i <= cuts.length; i++) {
      int e = i < cuts.length ? cuts[i] : all.length;
      if (e > p) {
        byte[] x = Arrays.copyOfRange(all, p, e);
        c.addComponent(true, i % 2 == 0 ? Unpooled.wrappedBuffer(x) : Unpooled.directBuffer(x.length).writeBytes(x));
      }
      p = e;
    }
    return c;
  }
  static int[] every(int n, int step) {
    List<Integer> l = new ArrayList<>();
    for (int i = step; i < n; i += step) l.add(i);
    return l.stream().mapToInt(x -> x).toArray();
  }
  /** Kinds that do not depend on a split position; content may be read. */
  public static LinkedHashMap<String, Maker> readable() {
    LinkedHashMap<String, Maker> m = new LinkedHashMap<>();
    m.put("heap", (a, r, w) -> at(Unpooled.wrappedBuffer(a.clone()), r, w));
    m.put("heapSlice", (a, r, w) -> at(Unpooled.wrappedBuffer(around(a, 7, 9)).slice(7, a.length), r, w));
    m.put("direct", (a, r, w) -> at(Unpooled.directBuffer(Math.max(1, a.length)).writeBytes(a), r, w));
    m.put("directSlice", (a, r, w) -> at(Unpooled.directBuffer(a.length + 20).writeBytes(around(a, 5, 3)).slice(5, a.length), r, w));
    m.put("pooledHeap", (a, r, w) -> at(PooledByteBufAllocator.DEFAULT.heapBuffer(Math.max(1, a.length)).writeBytes(a), r, w));
    m.put("pooledDirect", (a, r, w) -> at(PooledByteBufAllocator.DEFAULT.directBuffer(Math.max(1, a.length)).writeBytes(a), r, w));
    m.put("composite1", (a, r, w) -> at(pieces(a, every(a.length, 1)), r, w));
    m.put("composite3", (a, r, w) -> at(pieces(a, every(a.length, 3)), r, w));
    m.put("readOnlyHeap", (a, r, w) -> at(Unpooled.wrappedBuffer(a.clone()).asReadOnly(), r, w));
    m.put("readOnlyDirect", (a, r, w) -> at(Unpooled.directBuffer(Math.max(1, a.length)).writeBytes(a).asReadOnly(), r, w));
    m.put("readOnlyNio", (a, r, w) -> at(Unpooled.wrappedBuffer(java.nio.ByteBuffer.wrap(a.clone()).asReadOnlyBuffer()), r, w));
    m.put("nio", (a, r, w) -> at(Unpooled.wrappedBuffer(java.nio.ByteBuffer.wrap(a.clone())), r, w));
    m.put("duplicate", (a, r, w) -> at(Unpooled.wrappedBuffer(a.clone()).duplicate(), r, w));
    m.put("unreleasable", (a, r, w) -> at(Unpooled.unreleasableBuffer(Unpooled.wrappedBuffer(a.clone())), r, w));
    return m;
  }
  public static byte[] content(ByteBuf b, int from, int to) { byte[] x = new byte[to - from]; b.getBytes(from, x); return x; }
  public static void free(ByteBuf b) { try { if (b.refCnt() > 0) b.release(); } catch (RuntimeException e) { /* read-only or unreleasable views */ } }
}
