package mc;

import io.netty.buffer.*;
import java.io.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import java.util.function.*;
import mc.Spec.*;

/** C21: the same bytes and values in every environment. Every configuration runs in a process of its own. */
public final class EEnv {
  final Run run; final Spec spec; final Gen gen; final Harvest hv;
  EEnv(Run run, Spec spec, Harvest hv) { this.run = run; this.spec = spec; this.hv = hv; gen = new Gen(spec, hv, false); }

  static final String[] CHARSETS = {"UTF-8", "ISO-8859-1", "US-ASCII", "UTF-16", "UTF-16LE", "IBM1047", "Shift_JIS", "GBK"};
  static final String[][] LOCALES = {{"en", "US"}, {"tr", "TR"}, {"th", "TH", "TH"}, {"ar", "EG"}, {"hi", "IN"}, {"de", "DE"}, {"lt", "LT"}};
  static final String[] ZONES = {"UTC", "Asia/Shanghai", "America/St_Johns"};
  static final String[][] FLAGS = {
    {"io.netty.noUnsafe=true"}, {"io.netty.noPreferDirect=true"}, {"io.netty.allocator.type=unpooled"}, {"io.netty.allocator.type=pooled", "io.netty.tryReflectionSetAccessible=true"},
    {"io.netty.buffer.checkAccessible=false"}, {"io.netty.leakDetection.level=paranoid"}, {"io.netty.allocator.useCacheForAllThreads=true"},
    {"line.separator=\\r\\n", "file.separator=/"}, {"io.netty.noUnsafe=true", "file.encoding=US-ASCII", "user.language=tr", "user.country=TR"},
    {"-ea:com.finproto..."}, {"-XX:ActiveProcessorCount=1", "mc.loader=none"}, {"-XX:-CompactStrings", "-ea:com.finproto...", "file.encoding=GBK"}};

  static final class Cfg {
    final String name, java; final List<String> d;
    Cfg(String name, String java, List<String> d) { this.name = name; this.java = java; this.d = d; }
  }
  static void add(List<Cfg> l, String java, String cs, String[] loc, String zone, String... more) {
    List<String> d = new ArrayList<>(List.of("file.encoding=" + cs, "user.language=" + loc[0], "user.country=" + loc[1], "user.timezone=" + zone));
    if (loc.length > 2) d.add("user.variant=" + loc[2]);
    d.addAll(Arrays.asList(more));
    l.add(new Cfg(new File(java).getName() + "," + cs + "," + loc[0] + "_" + loc[1] + "," + zone + (more.length > 0 ? "," + String.join(",", more) : ""), java, d));
  }
  List<Cfg> configs() {
    List<Cfg> l = new ArrayList<>();
    String here = System.getProperty("java.home");
    for (String cs : CHARSETS) for (int i = 0; i < LOCALES.length; i++) {
      if (!run.thorough && !cs.equals("UTF-8") && i != 1 && !(i == 0 && cs.equals("ISO-8859-1"))) continue;
      for (int z = 0; z < (run.thorough ? ZONES.length : 1); z++) add(l, here, cs, LOCALES[i], ZONES[run.thorough ? z : l.size() % ZONES.length]);
    }
    for (String[] f : FLAGS) add(l, here, "UTF-8", LOCALES[0], "UTC", f);
    for (String v : new String[] {"21", "25"}) {
      String j = "/usr/lib/jvm/java-" + v + "-openjdk-amd64";
      if (!new File(j + "/bin/java").exists()) { run.cap("no JDK " + v + " here"); continue; }
      for (String cs : run.thorough ? CHARSETS : new String[] {"UTF-8", "ISO-8859-1"}) add(l, j, cs, LOCALES[0], "UTC");
    }
    return l;
  }

  void c21() throws Exception {
    if (System.getProperty("mc.env") != null) { child(); return; }
    List<Cfg> cs = configs();
    run.extra.put("configurations", cs.size());
    Path dir = Files.createTempDirectory(Paths.get(System.getProperty("mc.verif"), "build"), "env.");
    Map<String, String> digests = new TreeMap<>();
    List<Process> ps = Collections.synchronizedList(new ArrayList<>());
    Runtime.getRuntime().addShutdownHook(new Thread(() -> { for (Process p : ps) p.destroyForcibly(); wipe(dir); }));
    run.parallel(cs, () -> null, (x, c) -> {
      if (run.only != null && !run.only.startsWith(c.name + "|")) return;
      Path out = dir.resolve(Integer.toString(cs.indexOf(c)));
      try {
        List<String> cmd = new ArrayList<>(List.of(c.java + "/bin/java", "-Xmx1g", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1",
            "--add-opens", "java.base/java.nio=ALL-UNNAMED", "--add-opens", "java.base/jdk.internal.misc=ALL-UNNAMED"));
        boolean leak = false;
        for (String d : c.d) { cmd.add((d.startsWith("-") ? "" : "-D") + d.replace("\\r\\n", "\r\n")); leak |= d.contains("leakDetection"); }
        if (!leak) cmd.add("-Dio.netty.leakDetection.level=disabled");
        cmd.addAll(List.of("-Dmc.env=" + out, "-Dmc.threads=1", "-Dmc.classes=" + System.getProperty("mc.classes"), "-Dmc.verif=" + System.getProperty("mc.verif"),
            "-cp", System.getProperty("java.class.path"), "mc.Main", "C21", "--tier", run.tier));
        if (run.only != null) { cmd.add("--key"); cmd.add(run.only.substring(run.only.indexOf('|') + 1)); }
        Process p = new ProcessBuilder(cmd).redirectErrorStream(true).redirectOutput(dir.resolve(out.getFileName() + ".log").toFile()).start();
        ps.add(p);
        p.waitFor();
        if (!Files.exists(out)) throw new IllegalStateException("configuration " + c.name + " gave no result: " + new String(Files.readAllBytes(dir.resolve(out.getFileName() + ".log")), StandardCharsets.ISO_8859_1));
        for (String line : Files.readAllLines(out, StandardCharsets.UTF_8)) {
          String[] f = line.split("\t");
          if (f[0].equals("V")) run.violation(c.name + "|" + f[1], f[2]);
          else if (f[0].equals("T")) { run.states.add(Long.parseLong(f[1])); run.transitions.add(Long.parseLong(f[2])); run.traces.add(Long.parseLong(f[3])); }
          else if (f[0].equals("D")) synchronized (digests) {
            String k = f[1] + "/" + (c.java.equals(System.getProperty("java.home")) ? "" : new File(c.java).getName());
            String old = digests.putIfAbsent(k, c.name + "=" + f[2]);
            if (old != null && !old.endsWith("=" + f[2])) run.violation(c.name + "|" + f[1], "the text of the messages differs between configurations " + c.name + " and " + old.substring(0, old.lastIndexOf('=')));
          }
        }
      } catch (IOException | InterruptedException e) { throw new RuntimeException(e); }
      run.sample(c.name);
    });
    wipe(dir);
  }
  static void wipe(Path dir) {
    File[] fs = dir.toFile().listFiles();
    if (fs != null) for (File f : fs) f.delete();
    dir.toFile().delete();
  }

  /** One configuration: everything against the reference, which names its charset and byte order. */
  void child() throws Exception {
    if ("none".equals(System.getProperty("mc.loader"))) Thread.currentThread().setContextClassLoader(null);
    Sut sut = Sut.fresh(spec);
    Map<String, Long> text = new TreeMap<>();
    run.maxViol = 5;
    for (Msg m : spec.msgs.values()) {
      List<Gen.Base> bs = new ArrayList<>(gen.bases(m));
      bs.addAll(gen.shapes(m));
      for (Gen.Base b : bs) one(sut, b.r, b.id, text);
      if (m.isFrame()) continue;
      Rec r = gen.base(m, 1, 1, -1);
      Map<String, Integer> seen = new HashMap<>();
      for (Gen.Slot s : Gen.slots(r, false, false)) {
        if (s.t.k != K.FIX && s.t.k != K.DYN) continue;
        boolean first = seen.merge(s.t.k + "," + s.t.width + "," + s.t.pad + "," + s.t.left + "," + (s.elem >= 0), 1, Integer::sum) == 1; // one slot of every kind gets all texts
        Object old = s.get();
        Object[] a = first ? gen.alphabet(s) : gen.small(s);
        for (int i = 0; i < a.length; i++) { s.set(a[i]); one(sut, r, m + "/" + s.path + "=#" + i + (first ? "" : "s"), text); }
        s.set(old);
      }
    }
    // codes and checksums
    for (Registry r : spec.regs) if (!r.factory.endsWith("$-")) for (Object k : r.table.keySet()) {
      String key = r + "/" + k;
      if (!run.want(key)) continue;
      try {
        Object o = sut.reg(r).create(k);
        if (!o.getClass().getName().equals(r.table.get(k).cls)) run.violation(key, "code selects " + o.getClass().getName());
      } catch (Throwable t) { run.violation(key, "published code rejected: " + Sut.desc(t)); }
      run.transitions.increment();
    }
    byte[] all = new byte[1024];
    for (int i = 0; i < all.length; i++) all[i] = (byte) (i * 37 + i / 256);
    for (String alg : new String[] {"CRC16", "CRC32", "SSE_BIN", "SZSE_BIN"}) for (int len = 0; len <= all.length; len = len < 300 ? len + 1 : len * 2) {
      String key = alg + "/" + len;
      if (!run.want(key)) continue;
      try {
        Object got = sut.sums().calc(sut.sums().get(alg), Unpooled.wrappedBuffer(all, 0, len));
        if (!Objects.equals(got, Ref.checksum(alg, all, 0, len))) run.violation(key, "checksum is " + got + ", published value " + Ref.checksum(alg, all, 0, len));
      } catch (Throwable t) { run.violation(key, Sut.desc(t)); }
      try { // inside larger buffers of the default kinds
        ByteBuf[] kinds = {Unpooled.wrappedBuffer(all), ByteBufAllocator.DEFAULT.buffer(2048).writeBytes(all), ByteBufAllocator.DEFAULT.heapBuffer(2048).writeBytes(all), Unpooled.directBuffer(1024).writeBytes(all), Unpooled.wrappedBuffer(Arrays.copyOf(all, 100), Arrays.copyOfRange(all, 100, 1024))};
        for (int i = 0; i < kinds.length; i++) for (int off : new int[] {0, 1, 7, 64}) {
          if (off + len > all.length) break;
          for (int slice = 0; slice < 2; slice++) {
            ByteBuf x = slice == 0 ? kinds[i].setIndex(off, off + len) : kinds[i].slice(off, len);
            Object got = sut.sums().calc(sut.sums().get(alg), x);
            if (!Objects.equals(got, Ref.checksum(alg, all, off, len))) { run.violation(key, "checksum at offset " + off + " of buffer kind " + i + (slice == 1 ? " (slice)" : "") + " is " + got + ", published value " + Ref.checksum(alg, all, off, len)); break; }
          }
        }
        for (ByteBuf x : kinds) x.release();
      } catch (Throwable t) { run.violation(key, Sut.desc(t)); }
      run.transitions.add(40); run.traces.increment();
    }
    StringBuilder b = new StringBuilder();
    for (String[] v : run.violations) b.append("V\t").append(v[0]).append('\t').append(v[1].replaceAll("[\\t\\n\\r]", " ")).append('\n');
    for (Map.Entry<String, Long> e : text.entrySet()) b.append("D\t").append(e.getKey()).append('\t').append(e.getValue()).append('\n');
    b.append("T\t").append(run.states.sum()).append('\t').append(run.transitions.sum()).append('\t').append(run.traces.sum()).append('\n');
    Path out = Paths.get(System.getProperty("mc.env")), tmp = Paths.get(out + ".tmp");
    Files.write(tmp, b.toString().getBytes(StandardCharsets.UTF_8));
    Files.move(tmp, out, StandardCopyOption.ATOMIC_MOVE);
    Runtime.getRuntime().halt(0);
  }
  void one(Sut sut, Rec r, String key, Map<String, Long> text) {
    if (!run.want(key)) return;
    String e;
    try {
      byte[] want = Ref.encode(r);
      Object o = sut.toObj(r);
      ByteBuf b = ByteBufAllocator.DEFAULT.buffer(16);
      sut.encode(o, b);
      e = EValues.bytesDiff(want, EValues.take(b));
      if (e == null) {
        Object p = sut.mc(r.m).fresh();
        sut.decode(p, b);
        if (b.isReadable()) e = "decode left " + b.readableBytes() + " bytes";
        else e = Rec.diff(Ref.decode(r.m, new Ref.In(want, 0, want.length)), sut.fromObj(p), r.m.simple);
        long h = p.toString().hashCode() * 31L + o.toString().hashCode();
        text.merge(r.m.toString(), h, (x, y) -> x * 1000003 + y);
      }
      b.release();
      run.transitions.add(2); run.traces.increment();
      run.state(Run.fp(r.m.cls.hashCode(), want, 0, want.length));
    } catch (Sut.Broken x) { e = Sut.desc(x); }
    if (e != null) run.violation(key, e + " | value " + r);
  }
}
