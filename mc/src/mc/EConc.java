package mc;

import io.netty.buffer.*;
import java.lang.reflect.*;
import java.util.*;
import java.util.concurrent.atomic.*;
import java.util.function.*;
import mc.Spec.*;

/** C15 separate messages on separate threads, C16 shared registries: exploration of thread interleavings. */
public final class EConc {
  final Run run; final Spec spec; final Gen gen;
  final int bound; final long perScenario; final double deadline;
  EConc(Run run, Spec spec, Harvest hv) {
    this.run = run; this.spec = spec; gen = new Gen(spec, hv, false);
    bound = Integer.getInteger("mc.bound", run.thorough ? 3 : 2);
    perScenario = run.thorough ? 60_000 : 3_000;
    deadline = run.thorough ? 3000 : 300;
  }

  /** What one thread (or a sequential run) of one execution uses to reach the library. */
  static final class Th {
    final ClassLoader l;
    Th(ClassLoader l) { this.l = l; }
    Class<?> cls(String n) throws Throwable {
      Hooks.init(n.replace('.', '/'));
      try { return Class.forName(n, true, l); } catch (ExceptionInInitializerError e) { throw e.getCause() instanceof Sched.Abort ? e.getCause() : e; }
    }
    Object fresh(String n) throws Throwable {
      Class<?> c = cls(n);
      try { return c.getConstructor().newInstance(); } catch (InvocationTargetException e) { throw e.getCause(); }
    }
    static Object inv(Object o, Method m, Object... a) throws Throwable {
      try { return m.invoke(o, a); } catch (InvocationTargetException e) { throw e.getCause(); }
    }
    Method codec(String n) throws Throwable { return Class.forName("com.finproto.codec.BinaryCodec", false, l).getMethod(n, ByteBuf.class); }
  }
  interface Op { Object run(Th t) throws Throwable; }
  static String err(Throwable t) {
    if (t instanceof Sched.Abort) throw (Sched.Abort) t;
    String m = t.getMessage();
    return "!" + t.getClass().getSimpleName() + (m == null || m.indexOf('@') >= 0 ? "" : ": " + m);
  }
  static Object attempt(Op o, Th t) { try { return o.run(t); } catch (Throwable e) { return err(e); } }

  /** Per-worker machinery. */
  static final class W { final Sched s = new Sched(3); final Weaver.JdkLoader jdk = new Weaver.JdkLoader(); Weaver.Loader loader() { return new Weaver.Loader(jdk); } }

  static final class Scen {
    final String id; final Op[][] prog; final Consumer<Th> setup; final Op fin; final boolean lin;
    boolean renew; // the threads are started by the thread that did the set-up
    Scen(String id, Consumer<Th> setup, Op fin, boolean lin, Op[]... prog) { this.id = id; this.setup = setup; this.fin = fin; this.lin = lin; this.prog = prog; }
  }

  /** One execution's program. */
  final class P implements Sched.Prog {
    final Scen sc; final Weaver.Loader l; final Object[][] res; final long[][] call, ret; final Function<P, String> judge; final W w;
    String fin;
    P(Scen sc, W w, Function<P, String> judge) {
      this.sc = sc; this.judge = judge; this.w = w;
      l = w.loader();
      int n = sc.prog.length;
      res = new Object[n][]; call = new long[n][]; ret = new long[n][];
      for (int i = 0; i < n; i++) { int k = sc.prog[i].length; res[i] = new Object[k]; call[i] = new long[k]; ret[i] = new long[k]; }
      if (sc.setup != null) sc.setup.accept(new Th(l));
      if (sc.renew) w.s.renew();
    }
    public ClassLoader loader() { return l; }
    public Set<String> ready() { return l.ready; }
    public int count() { return sc.prog.length; }
    public Runnable[] threads(Sched.Exec x) {
      Runnable[] r = new Runnable[sc.prog.length];
      for (int i = 0; i < r.length; i++) {
        final int fi = i;
        r[i] = () -> {
          Th t = new Th(l);
          for (int j = 0; j < sc.prog[fi].length; j++) {
            if (j > 0) x.point((Sched.MT) Thread.currentThread());
            call[fi][j] = x.clock++;
            res[fi][j] = attempt(sc.prog[fi][j], t);
            ret[fi][j] = x.clock++;
          }
        };
      }
      return r;
    }
    public String verdict(Sched.Exec x) {
      fin = "";
      if (sc.fin != null) { // under the scheduler, which notices lookups that never end
        Object[] f = new Object[1];
        Sched.Exec e = w.s.execute(new Sched.Prog() {
          public int count() { return 1; }
          public ClassLoader loader() { return l; }
          public Set<String> ready() { return l.ready; }
          public Runnable[] threads(Sched.Exec y) { return new Runnable[] {() -> f[0] = attempt(sc.fin, new Th(l))}; }
          public String verdict(Sched.Exec y) { return null; }
        }, new int[0], new BitSet());
        if (e.failure != null) return "after the threads have ended, lookups fail: " + e.failure;
        fin = String.valueOf(f[0]);
      }
      return judge.apply(this);
    }
  }

  final AtomicLong programs = new AtomicLong(), maxSites = new AtomicLong(), truncated = new AtomicLong(), execs = new AtomicLong();
  void explore(Scen sc, W w, Function<P, String> judge, Set<String> outs) {
    boolean late = run.secs() > deadline;
    Sched.Result r = w.s.explore(() -> new P(sc, w, p -> { String v = judge.apply(p); outs.add(Arrays.deepToString(p.res) + p.fin); return v; }), late ? 1 : bound, late ? 30 : perScenario, late ? 5 : run.thorough ? 400 : 40);
    programs.incrementAndGet();
    if (System.getProperty("mc.debug") != null && (r.executions > 300 || run.only != null)) {
      StringBuilder b = new StringBuilder();
      for (int i = w.s.lastSites.nextSetBit(0); i >= 0; i = w.s.lastSites.nextSetBit(i + 1)) b.append("\n     ").append(i >> 22 > 0 ? "(init) " : "").append(Weaver.name(i & (1 << 22) - 1));
      System.err.println(run.secs() + " " + sc.id + " " + r.executions + " " + r.capped + b);
    }
    run.traces.add(r.executions);
    run.transitions.add(r.decisions + r.steps);
    maxSites.accumulateAndGet(r.sites, Math::max);
    for (String o : outs) run.state(Run.fp(sc.id.hashCode(), o.getBytes(java.nio.charset.StandardCharsets.UTF_8), 0, 0) * 31 + o.hashCode());
    if (r.capped != null && r.violation == null) { truncated.incrementAndGet(); run.cap(r.capped.replaceAll("[0-9]+", "N").replace("cap N", "cap")); if (truncated.get() < 8) run.sample("not fully explored: " + sc.id + ": " + r.capped); }
    if (r.violation != null) { String v = r.violation + "; schedule (position:choice among the threads that can run, otherwise 0) " + brief(r.schedule) + ", " + r.preemptions + " preemption(s)"; run.violation(sc.id, v); if (SHARD != null) synchronized (System.out) { System.out.print("#V\t" + flat(sc.id) + "\t" + flat(v) + "\n"); System.out.flush(); } }
    else if (programs.get() % 97 == 1) run.sample(sc.id + ": " + r.executions + " executions, " + r.decisions + " decisions, " + r.sites + " scheduling sites, outcomes " + outs.size());
  }
  // ---- several processes (defining many classes in one JVM serialises on its locks) --------------------
  static final String SHARD = System.getProperty("mc.shard");
  void shards(List<Scen> all, BiConsumer<W, Scen> body) {
    if (SHARD != null) {
      String[] q = SHARD.split("/");
      List<Scen> mine = new ArrayList<>();
      for (int i = 0; i < all.size(); i++) if (i % Integer.parseInt(q[1]) == Integer.parseInt(q[0])) mine.add(all.get(i));
      run.parallel(mine, W::new, body);
      return;
    }
    int k = run.only != null ? 1 : Math.max(1, Run.THREADS / 2);
    if (k == 1) { run.parallel(all, W::new, body); return; }
    List<Process> ps = Collections.synchronizedList(new ArrayList<>());
    Runtime.getRuntime().addShutdownHook(new Thread(() -> { for (Process p : ps) p.destroyForcibly(); }));
    Thread[] ts = new Thread[k];
    AtomicReference<String> err = new AtomicReference<>();
    for (int i = 0; i < k; i++) {
      final int fi = i;
      ts[i] = new Thread(() -> {
        try {
          List<String> cmd = new ArrayList<>();
          cmd.add(System.getProperty("java.home") + "/bin/java");
          for (String a : java.lang.management.ManagementFactory.getRuntimeMXBean().getInputArguments()) if (!a.startsWith("-Xmx")) cmd.add(a);
          cmd.addAll(Arrays.asList("-Xmx3g", "-Dmc.threads=2", "-Dmc.shard=" + fi + "/" + k, "-cp", System.getProperty("java.class.path"), "mc.Main", run.prop, "--tier", run.tier));
          Process p = new ProcessBuilder(cmd).redirectError(ProcessBuilder.Redirect.INHERIT).start();
          ps.add(p);
          boolean done = false;
          try (java.io.BufferedReader r = new java.io.BufferedReader(new java.io.InputStreamReader(p.getInputStream(), java.nio.charset.StandardCharsets.UTF_8))) {
            for (String line; (line = r.readLine()) != null; ) {
              String[] f = line.split("\t", 8);
              switch (f[0]) {
                case "#T": run.states.add(Long.parseLong(f[1])); run.transitions.add(Long.parseLong(f[2])); run.traces.add(Long.parseLong(f[3]));
                  programs.addAndGet(Long.parseLong(f[4])); truncated.addAndGet(Long.parseLong(f[5])); maxSites.accumulateAndGet(Long.parseLong(f[6]), Math::max); done = true; break;
                case "#V": run.violation(f[1], f[2]); break;
                case "#S": run.sample(f[1]); break;
                case "#C": run.cap(f[1]); break;
                default: System.out.println(line);
              }
            }
          }
          if (!done) err.compareAndSet(null, "worker process " + fi + " ended without a result, exit code " + p.waitFor());
        } catch (Exception e) { err.compareAndSet(null, "worker process " + fi + ": " + e); }
      });
      ts[i].start();
    }
    for (Thread t : ts) try { t.join(); } catch (InterruptedException e) { throw new RuntimeException(e); }
    if (err.get() != null) { if (run.violations.isEmpty()) throw new RuntimeException(err.get()); run.cap(err.get()); }
  }
  static String flat(String s) { return s.replace('\t', ' ').replace('\n', ' ').replace('\r', ' '); }
  /** Reports a worker process's results to its parent. */
  void report() {
    if (SHARD == null) return;
    StringBuilder b = new StringBuilder();
    for (String x : run.samples) b.append("#S\t").append(x.replace('\n', ' ')).append('\n');
    for (String x : run.caps) b.append("#C\t").append(x.replace('\n', ' ')).append('\n');
    b.append("#T\t").append(run.states.sum()).append('\t').append(run.transitions.sum()).append('\t').append(run.traces.sum()).append('\t').append(programs.get()).append('\t').append(truncated.get()).append('\t').append(maxSites.get()).append('\n');
    System.out.print(b);
    System.out.flush();
    Runtime.getRuntime().halt(0);
  }
  void bounds() {
    report();
    run.extra.put("preemption_bound", bound);
    run.extra.put("programs", programs.get());
    run.extra.put("programs_not_fully_explored", truncated.get());
    run.extra.put("max_scheduling_sites", maxSites.get());
    run.assumptions.add("sequentially consistent memory");
    run.assumptions.add("scheduling points are conflicting accesses found during exploration, monitor and lock operations, and class initialisation");
  }

  // ---- C15 ------------------------------------------------------------------------------------------
  /** Work whose buffers start at an own place, so that no position is the same in two threads. */
  interface At extends Op {
    Object run(Th t, int at) throws Throwable;
    default Object run(Th t) throws Throwable { return run(t, 0); }
  }
  static ByteBuf shifted(byte[] in, int at) {
    byte[] d = new byte[at + in.length];
    Arrays.fill(d, 0, at, (byte) 0x5A);
    System.arraycopy(in, 0, d, at, in.length);
    return Unpooled.wrappedBuffer(d).readerIndex(at);
  }
  static Op at(Op o, int at) { return o instanceof At ? t -> ((At) o).run(t, at) : o; }
  /** A thread's work on its own message: decode, inspect, compare, print, encode. */
  static Op coding(Msg m, byte[] in, int order) {
    return (At) (t, at) -> {
      Object[] o = new Object[7];
      Object a = t.fresh(m.cls), b = null;
      Method dec = t.codec("decode"), enc = t.codec("encode");
      if (order == 0) { try { ByteBuf e = Unpooled.buffer(16).writeZero(at); Object z = t.fresh(m.cls); if (m.union() == null) { Th.inv(z, enc, e); o[6] = ByteBufUtil.hexDump(e); } } catch (Throwable x) { o[6] = err(x); } }
      ByteBuf buf = shifted(in, at);
      try { Th.inv(a, dec, buf); o[0] = "left " + buf.readableBytes(); } catch (Throwable x) { o[0] = err(x); }
      if (order < 2) { try { b = t.fresh(m.cls); Th.inv(b, dec, shifted(in, at)); o[1] = a.equals(b) + "/" + b.equals(a); } catch (Throwable x) { o[1] = err(x); } }
      try { o[2] = a.toString(); } catch (Throwable x) { o[2] = err(x); }
      if (order < 2) try { o[3] = a.hashCode(); } catch (Throwable x) { o[3] = err(x); }
      ByteBuf out = Unpooled.buffer(16).writeZero(at);
      try { Th.inv(a, enc, out); o[4] = ByteBufUtil.hexDump(out); } catch (Throwable x) { o[4] = err(x) + " after " + ByteBufUtil.hexDump(out); }
      try { o[5] = String.valueOf(a); } catch (Throwable x) { o[5] = err(x); }
      return o;
    };
  }
  static Op repeat(Op o, int n) {
    return (At) (t, at) -> { Object r = null; for (int i = 0; i < n; i++) r = ((At) o).run(t, at); return r; };
  }
  /** Uses the shared checksum service of that name on an own buffer. */
  static Op summing(String name, byte[] in) {
    return (At) (t, at) -> {
      Class<?> f = t.cls("com.finproto.codec.ChecksumServiceFactory"), sv = t.cls("com.finproto.codec.ChecksumService");
      Object svc = Th.inv(Th.inv(null, f.getMethod("getInstance")), f.getMethod("getChecksumService", String.class), name);
      if (svc == null) return new Object[] {"none"};
      Method calc = sv.getMethod("calc", Object.class), ver = sv.getMethod("verify", Object.class, Object.class);
      Object[] o = new Object[4];
      for (int i = 0; i < 2; i++) try { o[i] = Th.inv(svc, calc, shifted(in, at)); } catch (Throwable x) { o[i] = err(x); }
      try { o[2] = Th.inv(svc, ver, shifted(in, at), o[0]); } catch (Throwable x) { o[2] = err(x); }
      try { o[3] = Th.inv(svc, sv.getMethod("algorithm")); } catch (Throwable x) { o[3] = err(x); }
      return o;
    };
  }
  byte[] wire(Msg m, int style, int variant, int salt) { return Ref.encode(gen.base(m, style, salt, variant)); }

  void c15() {
    List<Scen> l = new ArrayList<>();
    List<Msg> frames = new ArrayList<>();
    for (Msg m : spec.msgs.values()) if (m.isFrame()) frames.add(m);
    Map<Msg, Consumer<Th>> warm = new HashMap<>();
    // cross-frame and checksum programs first
    for (Msg f : frames) for (Msg g : frames) {
      if (f.cls.compareTo(g.cls) > 0) continue;
      l.add(two("cold:" + f + "|" + g, null, coding(f, wire(f, 1, 0, 1), 0), coding(g, wire(g, 2, gen.variants(g) - 1, 4), 1)));
    }
    byte[][] data = {Ref.encode(gen.base(frames.get(0), 1, 1, 0)), new byte[300], "123456789".getBytes()};
    for (int i = 0; i < 300; i++) data[1][i] = (byte) (i * 7 + 200);
    String[] sums = {"CRC16", "CRC32", "SSE_BIN", "SZSE_BIN"};
    for (String a : sums) for (String b : sums) for (int x = 0; x < 2; x++) if (a.compareTo(b) <= 0) {
      final int fx = x;
      l.add(two((x == 0 ? "cold:" : "warm:") + "sum " + a + "|" + b, x == 0 ? null : t -> { attempt(summing(a, data[2]), t); attempt(summing(b, data[2]), t); }, summing(a, data[0]), summing(b, data[1])));
    }
    l.add(new Scen("cold:sum 3", null, null, false, new Op[] {summing("CRC16", data[0])}, new Op[] {at(summing("CRC16", data[1]), 3)}, new Op[] {at(summing("CRC32", data[2]), 7)}));
    // one message against hundreds: what is taken in turn from a fixed number of places comes round again
    Map<String, Msg> small = new TreeMap<>();
    for (Msg m : spec.msgs.values()) {
      int texts = 0;
      for (Spec.Field f : m.fields) if (f.t.k == K.FIX || f.t.k == K.DYN) texts++;
      if (texts == 0 || m.union() != null) continue;
      Msg o = small.get(m.proto());
      if (o == null || wire(m, 1, 0, 1).length < wire(o, 1, 0, 1).length) small.put(m.proto(), m);
    }
    List<Msg> rounds = new ArrayList<>(small.values());
    rounds.addAll(frames);
    for (Msg m : rounds) {
      byte[] a = wire(m, 1, 0, 1), b = wire(m, 2, 0, 4);
      l.add(two("warm:" + m + "|many", t -> attempt(coding(m, b, 1), t), coding(m, a, 2), repeat(coding(m, b, 2), m.isFrame() ? 20 : run.thorough ? 300 : 70)));
    }
    // every message against itself with another value, cold and warm, and against damaged input
    for (Msg m : spec.msgs.values()) {
      int nv = gen.variants(m);
      for (int v = 0; v < nv; v++) {
        byte[] a = wire(m, 1, v, 1), b = wire(m, 2, v, 4), c = wire(m, 2, (v + 1) % nv, 2), d = wire(m, 0, v, 1);
        byte[] cut = Arrays.copyOf(a, a.length * 2 / 3);
        String id = m + (nv > 1 ? "#" + v : "");
        l.add(two("cold:" + id + "|same", null, coding(m, a, 0), coding(m, b, 0)));
        Consumer<Th> w = t -> { attempt(coding(m, c, 1), t); attempt(coding(m, b, 1), t); };
        Scen in = two("warm:" + id + "|same", w, coding(m, b, 2), coding(m, a, 2));
        in.renew = true;
        l.add(in);
        if (nv > 1) {
          l.add(two("cold:" + id + "|next", null, coding(m, a, 2), coding(m, c, 2)));
          l.add(two("warm:" + id + "|next", w, coding(m, a, 1), coding(m, c, 1)));
        }
        l.add(two("warm:" + id + "|cut", w, coding(m, cut, 2), coding(m, b, 2)));
        l.add(two("warm:" + id + "|initial", w, coding(m, d, 2), coding(m, a, 1)));
        byte[] sh = Ref.encode(gen.shaped(m, v, 0)), wd = Ref.encode(gen.shaped(m, v, 2));
        l.add(two("warm:" + id + "|short", w, coding(m, sh, 2), coding(m, sh, 2)));
        if (v < 3 || run.thorough) l.add(two("warm:" + id + "|wide", w, coding(m, wd, 2), coding(m, sh, 2)));
        if (run.thorough && nv > 1) for (int x = v + 2; x < nv; x++) l.add(two("cold:" + id + "|#" + x, null, coding(m, a, 2), coding(m, wire(m, 2, x, 5), 2)));
      }
      if (nv > 2) {
        l.add(new Scen("cold:" + m + "|3 types", null, null, false, new Op[] {coding(m, wire(m, 1, 0, 1), 2)}, new Op[] {at(coding(m, wire(m, 2, 1, 3), 2), 3)}, new Op[] {at(coding(m, wire(m, 1, 2, 5), 2), 7)}));
        l.add(new Scen("cold:" + m + "|3 same", null, null, false, new Op[] {coding(m, wire(m, 1, 0, 1), 2)}, new Op[] {at(coding(m, wire(m, 2, 0, 3), 2), 3)}, new Op[] {at(coding(m, wire(m, 1, 0, 5), 2), 7)}));
      }
      if (m.isFrame()) {
        byte[] bad = wire(m, 1, 0, 1);
        Rec r = gen.base(m, 1, 1, 0);
        // an unknown message type in front of a good body
        Spec.Field u = m.union();
        for (Object ko : u.t.reg.table.keySet()) { r.v[u.t.disc] = ko instanceof Short ? (Object) (short) 31999 : ko instanceof Integer ? (Object) 7654321 : "?"; break; }
        byte[] unk;
        try { unk = Ref.encode(r); } catch (RuntimeException e) { unk = bad.clone(); unk[0] ^= 0x55; unk[3] ^= 0x55; }
        final byte[] fu = unk;
        l.add(two("cold:" + m + "|unknown", null, coding(m, fu, 2), coding(m, bad, 2)));
        l.add(two("warm:" + m + "|unknown", t -> attempt(coding(m, bad, 1), t), coding(m, fu, 2), coding(m, bad, 2)));
      }
    }
    shards(l, (w, sc) -> {
      if (!run.want(sc.id)) return;
      run.begin(() -> sc.id);
      String[][] alone = new String[sc.prog.length][];
      for (int i = 0; i < alone.length; i++) {
        alone[i] = alone(sc, i, w);
        String[] again = alone(sc, i, w);
        for (int j = 0; j < alone[i].length; j++) if (!Objects.equals(alone[i][j], again[j])) alone[i][j] = null; // depends on object identity
      }
      run.end();
      explore(sc, w, p -> {
        for (int i = 0; i < alone.length; i++) {
          String[] got = parts(p.res[i][0]);
          for (int j = 0; j < alone[i].length; j++)
            if (alone[i][j] != null && (j >= got.length || !alone[i][j].equals(got[j])))
              return "thread " + i + " obtained " + brief(j < got.length ? got[j] : got[0], alone[i][j]) + ", alone it obtains " + brief(alone[i][j], j < got.length ? got[j] : "");
        }
        return null;
      }, new HashSet<>());
    });
    bounds();
  }
  static String brief(int[] s) {
    StringJoiner j = new StringJoiner(" ", "", " of " + s.length);
    for (int i = 0; i < s.length; i++) if (s[i] != 0) j.add(i + ":" + s[i]);
    return j.toString();
  }
  static String brief(String s, String other) {
    int i = 0;
    while (i < s.length() && i < other.length() && s.charAt(i) == other.charAt(i)) i++;
    int from = Math.max(0, i - 20);
    return "\"" + (from > 0 ? ".." : "") + s.substring(from, Math.min(s.length(), from + 120)) + "\"";
  }
  static String[] parts(Object o) {
    if (!(o instanceof Object[])) return new String[] {String.valueOf(o)};
    Object[] a = (Object[]) o;
    String[] s = new String[a.length];
    for (int i = 0; i < s.length; i++) s[i] = String.valueOf(a[i]);
    return s;
  }
  String[] alone(Scen sc, int i, W w) {
    Th t = new Th(w.loader());
    if (sc.setup != null) sc.setup.accept(t);
    return parts(attempt(sc.prog[i][0], t));
  }
  static Scen two(String id, Consumer<Th> setup, Op a, Op b) { return new Scen(id, setup, null, false, new Op[] {a}, new Op[] {at(b, 5)}); }

  // ---- C16 ------------------------------------------------------------------------------------------
  static Supplier<Object> maker(ClassLoader l, String cls) {
    return () -> {
      try { return new Th(l).fresh(cls); }
      catch (Error | RuntimeException e) { throw e; }
      catch (Throwable e) { throw new IllegalStateException(e); }
    };
  }
  /** A registry as one thread sees it. */
  static Object[] reg(Th t, Registry r) throws Throwable {
    Class<?> f = t.cls(r.factory);
    return new Object[] {f, Th.inv(null, f.getMethod("getInstance"))};
  }
  static Class<?> kt(Registry r) { return r.keyType.equals("String") ? String.class : r.keyType.equals("Short") ? Short.class : Integer.class; }
  static Op get(Registry r, Object k) {
    return t -> { Object[] g = reg(t, r); Object o = Th.inv(g[1], ((Class<?>) g[0]).getMethod("create", kt(r)), k); return o == null ? "null" : o.getClass().getSimpleName(); };
  }
  static Op put(Registry r, Object k, String cls) {
    return t -> {
      Object[] g = reg(t, r);
      Class<?> f = (Class<?>) g[0];
      if (r.reverse) Th.inv(g[1], f.getMethod("register", Class.class, kt(r), Supplier.class), Class.forName(cls, false, t.l), k, maker(t.l, cls));
      else Th.inv(g[1], f.getMethod("register", kt(r), Supplier.class), k, maker(t.l, cls));
      return "done";
    };
  }
  static Op del(Registry r, Object k) { return t -> { Object[] g = reg(t, r); return Th.inv(g[1], ((Class<?>) g[0]).getMethod("remove", kt(r)), k); }; }
  static Op rev(Registry r, String cls) { return t -> { Object[] g = reg(t, r); return Th.inv(g[1], ((Class<?>) g[0]).getMethod("getMsgType", Class.class), Class.forName(cls, false, t.l)); }; }

  static int bucket(Object k) { int h = k.hashCode(); h ^= h >>> 16; return h & 63; }
  /** Fresh keys in the same hash bucket (up to table size 64) as k. */
  static List<Object> colliding(Registry r, Object k, int n, Set<Object> used) {
    List<Object> l = new ArrayList<>();
    for (int i = 20000; l.size() < n; i++) {
      Object x = r.keyType.equals("Short") ? (Object) (short) (i % 32000) : r.keyType.equals("Integer") ? (Object) i : "K" + i;
      if (bucket(x) == bucket(k) && used.add(x)) l.add(x);
    }
    return l;
  }

  void c16() {
    List<Scen> l = new ArrayList<>();
    for (Registry r : spec.regs) if (r.isPublic()) registry(r, l);
    checksums(l);
    shards(l, (w, sc) -> {
      if (!run.want(sc.id)) return;
      run.begin(() -> sc.id);
      // outcomes of all sequential orders, each run on the code in a fresh instance
      List<int[][]> orders = new ArrayList<>();
      int n = 0;
      for (Op[] p : sc.prog) n += p.length;
      orders(sc, new int[n][], 0, new int[sc.prog.length], orders);
      Map<int[][], String> seq = new LinkedHashMap<>();
      for (int[][] o : orders) seq.put(o, sequential(sc, o, w));
      run.end();
      explore(sc, w, p -> {
        String got = Arrays.deepToString(p.res) + p.fin;
        for (Map.Entry<int[][], String> e : seq.entrySet()) if (e.getValue().equals(got) && realTime(p, e.getKey())) return null;
        return "results and final lookups " + got + " fit no sequential order; the orders give " + new LinkedHashSet<>(seq.values());
      }, new HashSet<>());
    });
    bounds();
  }
  static void orders(Scen sc, int[][] cur, int n, int[] next, List<int[][]> out) {
    if (n == cur.length) { out.add(cur.clone()); return; }
    for (int i = 0; i < next.length; i++) if (next[i] < sc.prog[i].length) {
      cur[n] = new int[] {i, next[i]++};
      orders(sc, cur, n + 1, next, out);
      next[i]--;
    }
  }
  static boolean realTime(P p, int[][] o) {
    for (int a = 0; a < o.length; a++) for (int b = a + 1; b < o.length; b++)
      if (p.ret[o[b][0]][o[b][1]] < p.call[o[a][0]][o[a][1]]) return false;
    return true;
  }
  String sequential(Scen sc, int[][] order, W w) {
    Th t = new Th(w.loader());
    if (sc.setup != null) sc.setup.accept(t);
    Object[][] res = new Object[sc.prog.length][];
    for (int i = 0; i < res.length; i++) res[i] = new Object[sc.prog[i].length];
    for (int[] o : order) res[o[0]][o[1]] = attempt(sc.prog[o[0]][o[1]], t);
    return Arrays.deepToString(res) + attempt(sc.fin, t);
  }

  /** All pairs of the named operations and the longer programs, in one prepared state. */
  void programs(String id, Map<String, Op> ops, String[][] longer, Consumer<Th> setup, Op fin, List<Scen> l, Predicate<String[]> pick) {
    List<String> names = new ArrayList<>(ops.keySet());
    for (int i = 0; i < names.size(); i++) for (int j = i; j < names.size(); j++) {
      if (!pick.test(new String[] {names.get(i), names.get(j)})) continue;
      l.add(new Scen(id + "/" + names.get(i) + "|" + names.get(j), setup, fin, true, new Op[] {ops.get(names.get(i))}, new Op[] {ops.get(names.get(j))}));
    }
    for (String[] s : longer) {
      if (!pick.test(s)) continue;
      Op[][] p = new Op[s.length][];
      boolean ok = true;
      for (int i = 0; i < s.length; i++) { String[] q = s[i].split(","); p[i] = new Op[q.length]; for (int j = 0; j < q.length; j++) ok &= (p[i][j] = ops.get(q[j])) != null; }
      if (ok) l.add(new Scen(id + "/" + String.join("|", s), setup, fin, true, p));
    }
  }

  void registry(Registry r, List<Scen> l) {
    List<Object> pub = new ArrayList<>(r.table.keySet());
    boolean sample = r.owner.proto().equals("sample");
    List<String> mk = new ArrayList<>();
    for (Msg m : spec.msgs.values()) if (m.proto().equals("sample") != sample && m.union() == null && m.fields.size() < 12 && mk.size() < 2) mk.add(m.cls);
    String A = mk.get(0), B = mk.get(1);
    List<String> others = new ArrayList<>();
    for (Msg m : spec.msgs.values()) if (!m.cls.equals(A) && !m.cls.equals(B) && !r.table.containsValue(m)) others.add(m.cls);
    int[] targets = {12, 24, 48, 96};
    int grow = 0;
    for (int t : targets) if (t >= pub.size()) { grow = t - pub.size(); break; }
    for (String mode : new String[] {"plain", "grow", "bin", "cold"}) {
      Set<Object> used = new HashSet<>(pub);
      Object P = pub.get(0), U = pub.get(pub.size() - 1);
      List<Object> near = colliding(r, U, 2, used);
      Object N = near.get(0), M = near.get(1), Q = colliding(r, P, 1, used).get(0);
      List<Object> fill = new ArrayList<>();
      if (mode.equals("grow")) for (int i = 0; i < grow; i++) fill.add(colliding(r, i % 2 == 0 ? (Object) U : ERegs.key(r, i), 1, used).get(0));
      if (mode.equals("bin")) { // a bucket on the brink of becoming a tree, in a table of 64 or more
        fill.addAll(colliding(r, U, 7, used));
        for (int i = 0; fill.size() + pub.size() < 26; i++) fill.add(colliding(r, ERegs.key(r, i), 1, used).get(0));
      }
      Map<String, Op> ops = new LinkedHashMap<>();
      ops.put("regN-A", put(r, N, A)); ops.put("regN-B", put(r, N, B)); ops.put("regM", put(r, M, B)); ops.put("replaceP", put(r, P, A));
      ops.put("removeP", del(r, P)); ops.put("removeN", del(r, N)); ops.put("createN", get(r, N)); ops.put("createP", get(r, P)); ops.put("createU", get(r, U));
      if (r.reverse) { ops.put("revA", rev(r, A)); ops.put("revP", rev(r, r.table.get(P).cls)); }
      String[][] longer = {
        {"regN-A,createN", "regN-B,createN"}, {"regN-A,removeN", "createN,createN"}, {"removeP,replaceP", "createP,createP"}, {"regN-A,createU", "regM,createN"}, {"removeP,createP", "replaceP,createU"},
        {"regN-A,removeN", "removeN,regN-B"}, {"regN-A", "regN-B", "createN"}, {"regN-A", "removeN", "createN"}, {"regN-A", "regM", "createU"}, {"removeP", "createP", "regN-A"}, {"replaceP", "removeP", "createP"},
        {"createP", "createU", "regN-A"}, {"createP", "createP", "createU"},
        {"regN-A,revA", "createN,revA"}, {"createN,revA", "regN-A"}, {"revA,createN", "regN-A"}, {"removeP", "createP,revP"}, {"removeP", "revP,createP"}, {"regN-A", "regN-B", "revA"}, {"removeP", "revP", "replaceP"}, {"regN-A,removeN", "revA,createN"}};
      List<Object> watch = new ArrayList<>(Arrays.asList(N, M, P, U, Q));
      if (pub.size() > 2) watch.add(pub.get(pub.size() / 2));
      watch.addAll(fill.subList(0, Math.min(3, fill.size())));
      if (!fill.isEmpty()) watch.add(fill.get(fill.size() - 1));
      Op fin = t -> {
        StringBuilder b = new StringBuilder();
        for (Object k : watch) b.append(' ').append(k).append('=').append(attempt(get(r, k), t));
        if (r.reverse) for (String c : new String[] {A, B, r.table.get(P).cls, r.table.get(U).cls}) b.append(" rev=").append(attempt(rev(r, c), t));
        return b.toString();
      };
      boolean grows = mode.equals("grow"); // then the reverse table, too, is about to grow
      Consumer<Th> setup = mode.equals("cold") ? null : t -> {
        attempt(get(r, U), t); attempt(get(r, P), t);
        for (int i = 0; i < fill.size(); i++) attempt(put(r, fill.get(i), r.reverse && grows ? others.get(i) : A), t);
        // entries that the final lookups use must be past their own initialisation
        for (String c : new String[] {A, B}) attempt(x -> x.fresh(c), t);
      };
      boolean big = r.reverse || r.owner.isFrame() || run.thorough;
      programs(mode + ":" + r, ops, longer, setup, fin, l, s -> {
        if (mode.equals("cold")) return s.length == 3 ? s[0].equals("createP") : s.length == 2 && s[0].indexOf(',') < 0 && (s[1].startsWith("create") || s[1].startsWith("rev") || s[0].equals(s[1]));
        if (mode.equals("bin") && !big) return s[0].startsWith("reg") && s.length == 2;
        return true;
      });
    }
  }

  static final class SumH implements InvocationHandler {
    final String name; final int id;
    SumH(String n, int i) { name = n; id = i; }
    public Object invoke(Object p, Method m, Object[] a) {
      switch (m.getName()) {
        case "algorithm": return name;
        case "hashCode": return name.hashCode();
        case "equals": return p == a[0];
        case "toString": return name + "#" + id;
        case "verify": return true;
        default: return id;
      }
    }
  }
  static final String CF = "com.finproto.codec.ChecksumServiceFactory";
  static Object svc(Th t, String name, int id) throws Throwable {
    return Proxy.newProxyInstance(t.l, new Class<?>[] {t.cls("com.finproto.codec.ChecksumService")}, new SumH(name, id));
  }
  static Object sumCall(Th t, String m, Class<?> pt, Object... a) throws Throwable {
    Class<?> f = t.cls(CF);
    Object g = Th.inv(null, f.getMethod("getInstance"));
    return Th.inv(g, pt == null ? f.getMethod(m) : f.getMethod(m, pt), a);
  }
  static Op sumReg(String n, int id) { return t -> { Object s = svc(t, n, id); return sumCall(t, "registry", t.cls("com.finproto.codec.ChecksumService"), s); }; }
  static Op sumGet(String n) { return t -> { Object s = sumCall(t, "getChecksumService", String.class, n); return s == null ? "none" : Proxy.isProxyClass(s.getClass()) ? s.toString() : s.getClass().getSimpleName(); }; }
  static Op sumDel(String n) { return t -> { sumCall(t, "removeChecksumService", String.class, n); return "done"; }; }
  static Op sumClear() { return t -> { sumCall(t, "clearAllChecksumService", null); return "done"; }; }

  void checksums(List<Scen> l) {
    for (String mode : new String[] {"plain", "grow", "bin", "cold", "empty"}) {
      List<String> fill = new ArrayList<>();
      List<String> near = new ArrayList<>();
      for (int i = 0; near.size() < 12; i++) if (bucket("S" + i) == bucket("CRC32")) near.add("S" + i);
      String X = near.get(0), Y = near.get(1);
      if (mode.equals("grow")) for (int i = 0; i < 8; i++) fill.add(i % 2 == 0 ? near.get(2 + i) : "F" + i);
      if (mode.equals("bin")) { fill.addAll(near.subList(2, 9)); for (int i = 0; fill.size() < 22; i++) fill.add("F" + i); }
      Map<String, Op> ops = new LinkedHashMap<>();
      ops.put("regX1", sumReg(X, 1)); ops.put("regX2", sumReg(X, 2)); ops.put("regY", sumReg(Y, 3)); ops.put("regCRC16", sumReg("CRC16", 4));
      ops.put("remCRC16", sumDel("CRC16")); ops.put("remX", sumDel(X)); ops.put("getX", sumGet(X)); ops.put("getCRC16", sumGet("CRC16")); ops.put("getCRC32", sumGet("CRC32")); ops.put("clear", sumClear());
      String[][] longer = {
        {"regX1,getX", "regX2,getX"}, {"regX1,remX", "regX2,remX"}, {"regX1,remX", "getX,regX2"}, {"remCRC16,regCRC16", "getCRC16,getCRC16"}, {"remCRC16,regCRC16", "remCRC16,regX1"}, {"clear,regX1", "regX2,getCRC32"}, {"clear", "regX1,regY"},
        {"regX1", "regX2", "getX"}, {"regX1", "regX2", "remX"}, {"regX1", "regY", "getCRC32"}, {"regX1", "remX", "regX2"}, {"clear", "regX1", "getCRC32"}, {"remCRC16", "regCRC16", "getCRC16"}, {"getCRC16", "getCRC32", "regX1"}};
      List<String> watch = new ArrayList<>(Arrays.asList(X, Y, "CRC16", "CRC32", "SSE_BIN", "SZSE_BIN"));
      watch.addAll(fill.subList(0, Math.min(4, fill.size())));
      Op fin = t -> { StringBuilder b = new StringBuilder(); for (String k : watch) b.append(' ').append(k).append('=').append(attempt(sumGet(k), t)); return b.toString(); };
      boolean grows = mode.equals("grow"); // then the reverse table, too, is about to grow
      Consumer<Th> setup = mode.equals("cold") ? null : t -> {
        attempt(sumGet("CRC32"), t);
        if (mode.equals("empty")) attempt(sumClear(), t);
        for (int i = 0; i < fill.size(); i++) attempt(sumReg(fill.get(i), 10 + i), t);
      };
      programs(mode + ":checksums", ops, longer, setup, fin, l, s -> true);
    }
  }
}
