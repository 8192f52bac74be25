package mc;

import java.io.*;
import java.lang.management.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.*;
import java.util.concurrent.atomic.*;
import java.util.function.*;

/** One run of one check: counters, violations, parallel work, watchdog, evidence. */
public final class Run {
  public final String prop, tier;
  public final boolean thorough;
  public final String only; // replay: run only the case with this key
  public final Path verif;
  public final LongAdder states = new LongAdder(), transitions = new LongAdder(), traces = new LongAdder();
  public final Map<String, Object> extra = new ConcurrentSkipListMap<>();
  public final Set<String> outcomes = ConcurrentHashMap.newKeySet();
  final List<String> samples = Collections.synchronizedList(new ArrayList<>());
  final ConcurrentLinkedQueue<String[]> violations = new ConcurrentLinkedQueue<>();
  final AtomicInteger nviol = new AtomicInteger();
  public final Map<String, String> known = new ConcurrentSkipListMap<>();
  public final Set<String> caps = ConcurrentHashMap.newKeySet();
  final long t0 = System.nanoTime();
  public int maxViol = 20;

  public Run(String prop, String tier, String only, Path verif) {
    this.prop = prop; this.tier = tier; this.only = only; this.verif = verif;
    thorough = tier.equals("thorough");
  }
  public boolean stop() { return nviol.get() >= maxViol; }
  public double secs() { return (System.nanoTime() - t0) / 1e9; }

  public void violation(String key, String what) {
    if (only != null && !only.equals(key)) return;
    if (nviol.incrementAndGet() <= maxViol) violations.add(new String[] {key, what});
  }
  /** True if the case with this key is to be run. */
  public boolean want(Supplier<String> key) { return only == null ? !stop() : only.equals(key.get()); }
  public boolean want(String key) { return only == null ? !stop() : only.equals(key); }
  public void sample(String s) { if (samples.size() < 12) samples.add(s.length() > 500 ? s.substring(0, 500) : s); }
  public void cap(String s) { caps.add(s); }

  // ---- distinct states ------------------------------------------------------------------------
  /** Counts a state once, by 64-bit fingerprint (striped open-addressing sets). */
  public void state(long fp) {
    fp *= 0x9E3779B97F4A7C15L; fp ^= fp >>> 29; fp *= 0xBF58476D1CE4E5B9L; fp ^= fp >>> 32;
    if (fp == 0) fp = 1;
    Stripe s = stripes[(int) (fp >>> 56) & 255];
    if (s.add(fp)) states.increment();
  }
  final class Stripe {
    long[] a = new long[1024]; int n;
    synchronized boolean add(long x) {
      int m = a.length - 1, i = (int) x & m;
      while (a[i] != 0) { if (a[i] == x) return false; i = i + 1 & m; }
      if (n >= 1 << 20) { cap("distinct-state counting stopped at 2^28 states"); return false; }
      a[i] = x;
      if (++n * 2 > a.length) {
        long[] b = a; a = new long[b.length * 2]; m = a.length - 1;
        for (long y : b) if (y != 0) { i = (int) y & m; while (a[i] != 0) i = i + 1 & m; a[i] = y; }
      }
      return true;
    }
  }
  final Stripe[] stripes = new Stripe[256];
  { for (int i = 0; i < 256; i++) stripes[i] = new Stripe(); }
  public static long fp(long seed, byte[] b, int off, int len) {
    long h = seed * 31 + len;
    for (int i = 0; i < len; i++) h = (h ^ b[off + i]) * 0x100000001B3L + (h >>> 41);
    return h;
  }

  // ---- watchdog: a case that does not end ---------------------------------------------------
  static final class Slot { volatile Supplier<String> key; volatile long cpu0 = -1; volatile long tid; volatile Thread th; volatile long seq; long seen; }
  final List<Slot> slots = new CopyOnWriteArrayList<>();
  final ThreadLocal<Slot> slot = ThreadLocal.withInitial(() -> { Slot s = new Slot(); s.th = Thread.currentThread(); s.tid = s.th.getId(); slots.add(s); return s; });
  static final ThreadMXBean TM = ManagementFactory.getThreadMXBean();
  /** Marks the begin of a case; the watchdog reports it if it burns more than the limit of CPU time. */
  public void begin(Supplier<String> key) { Slot s = slot.get(); s.seq++; s.key = key; }
  public void end() { Slot s = slot.get(); s.key = null; s.seq++; }
  public long hangCpuSecs = 40;
  void watchdog() {
    Thread w = new Thread(() -> {
      while (true) {
        try { Thread.sleep(1000); } catch (InterruptedException e) { return; }
        for (Slot s : slots) {
          Supplier<String> k = s.key;
          long q = s.seq;
          if (k == null) { s.cpu0 = -1; continue; }
          long cpu = TM.getThreadCpuTime(s.tid);
          if (cpu < 0) continue;
          if (s.cpu0 < 0 || s.seen != q) { s.cpu0 = cpu; s.seen = q; continue; }
          if ((cpu - s.cpu0) / 1_000_000_000L >= hangCpuSecs) {
            StackTraceElement[] st = s.th.getStackTrace();
            if (s.seq != q) continue;
            violation(k.get(), "no result after " + hangCpuSecs + " s of CPU time (expected microseconds); at " + (st.length > 0 ? Arrays.toString(Arrays.copyOf(st, Math.min(6, st.length))) : "?"));
            Runtime.getRuntime().halt(finish());
          }
        }
      }
    }, "watchdog");
    w.setDaemon(true);
    w.start();
  }

  // ---- parallel work -------------------------------------------------------------------------
  public static int THREADS = Integer.getInteger("mc.threads", Math.max(2, Runtime.getRuntime().availableProcessors()));
  public <S> void parallel(int n, Supplier<S> perThread, BiConsumer<S, Integer> body) {
    AtomicInteger next = new AtomicInteger();
    Thread[] ts = new Thread[Math.min(THREADS, n)];
    AtomicReference<Throwable> err = new AtomicReference<>();
    for (int i = 0; i < ts.length; i++) {
      ts[i] = new Thread(null, () -> {
        try {
          S s = perThread.get();
          for (int k; (k = next.getAndIncrement()) < n && !stop(); )
            try { body.accept(s, k); }
            catch (IndexOutOfBoundsException | io.netty.util.IllegalReferenceCountException t) { // only an index or count that the code under test left behind can do this
              Supplier<String> key = slot.get().key;
              if (key == null || t.getStackTrace().length == 0 || !t.getStackTrace()[0].getClassName().startsWith("io.netty.")) throw t;
              violation(key.get(), "the buffer is unusable afterwards: " + Sut.desc(t));
            }
        } catch (Throwable t) { err.compareAndSet(null, t); }
      }, "w" + i, 64L << 20);
      ts[i].start();
    }
    for (Thread t : ts) try { t.join(); } catch (InterruptedException e) { throw new RuntimeException(e); }
    if (err.get() != null) {
      if (err.get() instanceof Sut.Broken) violation("setup", Sut.desc(err.get()));
      else { cap("a worker ended early"); if (nviol.get() == 0) throw new RuntimeException("engine failure", err.get()); err.get().printStackTrace(); }
    }
  }
  public <T, S> void parallel(List<T> items, Supplier<S> perThread, BiConsumer<S, T> body) {
    parallel(items.size(), perThread, (s, i) -> body.accept(s, items.get(i)));
  }

  // ---- finishing -------------------------------------------------------------------------------
  public String level = "model_checking";
  public final List<String> assumptions = new ArrayList<>();
  static String q(String s) {
    StringBuilder b = new StringBuilder("\"");
    for (int i = 0; i < s.length(); i++) {
      char c = s.charAt(i);
      if (c == '"' || c == '\\') b.append('\\').append(c);
      else if (c < 32 || c > 126) b.append(String.format("\\u%04x", (int) c));
      else b.append(c);
    }
    return b.append('"').toString();
  }
  static String js(Object o) {
    if (o instanceof Number || o instanceof Boolean) return o.toString();
    if (o instanceof Collection) { StringJoiner j = new StringJoiner(",", "[", "]"); for (Object x : (Collection<?>) o) j.add(js(x)); return j.toString(); }
    if (o instanceof Map) { StringJoiner j = new StringJoiner(",", "{", "}"); for (Map.Entry<?, ?> e : ((Map<?, ?>) o).entrySet()) j.add(q(e.getKey().toString()) + ":" + js(e.getValue())); return j.toString(); }
    return q(String.valueOf(o));
  }
  synchronized int finish() {
    List<String[]> vs = new ArrayList<>(violations);
    vs.sort(Comparator.comparingInt((String[] a) -> a[0].length()).thenComparing(a -> a[0]));
    try {
      if (only == null) {
        StringBuilder b = new StringBuilder("{");
        long seed = 1;
        try { seed = Long.parseLong(System.getenv().getOrDefault("VERIF_SEED", "1")); } catch (NumberFormatException e) { /* default */ }
        b.append("\"property\":").append(q(prop)).append(",\"tier\":").append(q(tier)).append(",\"seed\":").append(seed);
        b.append(",\"level\":\"model_checking\",\"coverage\":{\"states\":").append(states.sum());
        b.append(",\"transitions\":").append(transitions.sum());
        b.append(",\"traces_validated_against_impl\":").append(traces.sum());
        b.append(",\"exhaustive\":").append(caps.isEmpty());
        if (!outcomes.isEmpty()) b.append(",\"distinct_outcomes\":").append(outcomes.size());
        b.append(",\"caps_hit\":").append(js(new TreeSet<>(caps)));
        b.append(",\"bounds\":").append(js(extra));
        b.append(",\"samples\":").append(js(new ArrayList<>(samples)));
        b.append("},\"assumptions\":").append(js(assumptions));
        b.append(",\"violations\":").append(nviol.get()).append(",\"known_findings\":").append(js(known));
        b.append(",\"wall_s\":").append(String.format(Locale.ROOT, "%.2f", secs())).append("}\n");
        Files.createDirectories(verif.resolve("evidence"));
        Files.write(verif.resolve("evidence/" + prop + ".json"), b.toString().getBytes(StandardCharsets.UTF_8));
      }
      System.out.printf(Locale.ROOT, "%s %s: states=%d transitions=%d traces=%d violations=%d %.1fs%n", prop, tier, states.sum(), transitions.sum(), traces.sum(), nviol.get(), secs());
      for (Map.Entry<String, String> k : known.entrySet())
        System.out.println("KNOWN-FINDING: property=" + prop + " " + k.getValue());
      int i = 0;
      Path dir = verif.resolve("evidence/replay");
      if (!vs.isEmpty()) Files.createDirectories(dir);
      for (String[] v : vs) {
        if (i >= 5) break;
        Path p = dir.resolve(prop + "-" + (++i) + ".replay");
        if (only == null) Files.write(p, ("property=" + prop + "\ntier=" + tier + "\nkey=" + v[0] + "\nwhat=" + v[1].replace('\n', ' ') + "\n").getBytes(StandardCharsets.UTF_8));
        System.out.println("  case " + v[0] + "\n       " + v[1]);
        System.out.println("VIOLATION property=" + prop + " replay=" + (only == null ? "evidence/replay/" + p.getFileName() : "(this replay)"));
      }
    } catch (IOException e) { e.printStackTrace(); return 2; }
    System.out.flush();
    return vs.isEmpty() ? 0 : 1;
  }
}
