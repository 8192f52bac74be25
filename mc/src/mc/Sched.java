package mc;

import java.util.*;
import java.util.concurrent.locks.*;
import java.util.function.*;

/**
 * Cooperative scheduler and depth-first explorer: exactly one thread of an execution runs at a time, and at every
 * scheduling point the next one is chosen by a recorded decision. Executions are enumerated by number of preemptions.
 */
public final class Sched {
  static final class Abort extends Error { Abort() { super("abort", null, false, false); } }
  static final Abort ABORT = new Abort();
  static final int RUN = 0, MONITOR = 1, INIT = 2, JLOCK = 3, WAITING = 4, DONE = 5;

  /** A thread of the explored program; reused over executions. */
  static final class MT extends Thread {
    final int id; final Sched s;
    volatile Exec x; volatile Runnable body;
    int state; Object on; long epoch; int noSwitch; int streak;
    final ArrayList<Object> held = new ArrayList<>();
    final ArrayList<String> inInit = new ArrayList<>();
    final HashMap<String, Integer> passed = new HashMap<>();
    int heldId;
    int[] vc = new int[0];
    final ArrayList<Loc> atoms = new ArrayList<>();
    volatile boolean quit;
    MT(Sched s, int id) { super(null, null, "mt", 16L << 20); this.s = s; this.id = id; setDaemon(true); }
    /** Threads look alike: one name, and numbers that agree in their low bits, so that work kept per name or per slot is shared. */
    static MT make(Sched s, int id, long slots) {
      while (true) { MT t = new MT(s, id); if (t.getId() % slots == 1) return t; }
    }
    @Override public void run() {
      while (!quit) {
        Exec e = x;
        if (e == null || body == null) { LockSupport.park(this); continue; }
        Runnable b = body;
        body = null;
        try { e.await(this); b.run(); }
        catch (Abort a) { /* execution given up */ }
        catch (Throwable t) { e.fail("thread " + id + " died: " + Sut.desc(t)); }
        try { e.finished(this); } catch (Abort a) { /* given up */ }
        x = null;
        e.left();
      }
    }
  }

  static final class Mon { MT owner; int count; }
  static final class Ini { MT owner; boolean done; }
  static final class Dec { final int[] en; final int chosen; final boolean running; Dec(int[] e, int c, boolean r) { en = e; chosen = c; running = r; } }

  static final class Acc { int thread, site, lock; boolean write; int passedLen; List<String> in; int[] vc; }
  static final class Loc { final Object o; final int f; final ArrayList<Acc> a = new ArrayList<>(2); int[] clock; Loc(Object o, int f) { this.o = o; this.f = f; } }

  /** One execution. */
  final class Exec {
    final int n; final int[] prefix; final BitSet sites; final ClassLoader loader;
    final List<Dec> decs = new ArrayList<>();
    final IdentityHashMap<Object, Mon> mons = new IdentityHashMap<>();
    final Map<String, Ini> inis = new HashMap<>();
    final Set<String> ready;
    Loc[] table = new Loc[512]; int nlocs;
    final ArrayList<Object[]> locksets = new ArrayList<>();
    volatile MT turn; volatile boolean abort; volatile String failure; volatile boolean diverged, stalled;
    volatile int left; final Thread main = Thread.currentThread();
    long steps, jepoch, clock;
    static final int STEP_LIMIT = 400_000, STREAK = 60_000;

    Exec(int n, int[] prefix, BitSet sites, ClassLoader l, Set<String> ready) { this.n = n; this.prefix = prefix; this.sites = sites; loader = l; this.ready = ready; locksets.add(new Object[0]); }

    void fail(String s) { if (failure == null) failure = s; giveUp(); }
    void giveUp() { abort = true; for (MT t : threads) LockSupport.unpark(t); }
    void await(MT m) {
      int spin = 0;
      while (turn != m) { if (abort) throw ABORT; if (++spin < 200) Thread.onSpinWait(); else LockSupport.park(this); }
      if (abort) throw ABORT;
      m.streak = 0;
    }
    boolean enabled(MT t) {
      switch (t.state) {
        case RUN: return true;
        case MONITOR: return mon(t.on).owner == null;
        case INIT: return inis.get(t.on).done;
        case JLOCK: return t.epoch != jepoch;
        default: return false;
      }
    }
    /** A lock held in some mode: two shared holders do not exclude one another. */
    final class Tok { final Object l; final boolean shared; Tok(Object l, boolean s) { this.l = l; shared = s; } }
    final IdentityHashMap<Object, Tok[]> toks = new IdentityHashMap<>();
    Tok tok(Object l, boolean shared) {
      Tok[] t = toks.computeIfAbsent(l, k -> new Tok[] { new Tok(l, false), new Tok(l, true) });
      return t[shared ? 1 : 0];
    }
    Mon mon(Object o) { return mons.computeIfAbsent(o, k -> new Mon()); }

    /** Chooses who runs next; returns when it is m's turn again (or at once when m is finished). */
    void choose(MT m, boolean fair) {
      int[] en = new int[n];
      int k = 0;
      boolean mine = m.state == RUN;
      if (mine && !fair) en[k++] = m.id;
      for (int i = 0; i < n; i++) if (i != m.id && enabled(threads[i])) en[k++] = i;
      if (mine && fair) en[k++] = m.id;
      if (!mine && m.state != DONE && enabled(m)) en[k++] = m.id;
      if (k == 0) {
        for (int i = 0; i < n; i++) if (threads[i].state != DONE) { fail("deadlock: " + waiting()); throw ABORT; }
        return;
      }
      int c = 0;
      if (k > 1) {
        if (decs.size() < prefix.length) c = prefix[decs.size()];
        if (c >= k) { diverged = true; giveUp(); throw ABORT; }
        decs.add(new Dec(Arrays.copyOf(en, k), c, mine && !fair));
      }
      MT t = threads[en[c]];
      if (t == m) { m.state = RUN; m.streak = 0; return; }
      t.state = RUN;
      turn = t;
      LockSupport.unpark(t);
      if (m.state != DONE) { await(m); m.state = RUN; }
    }
    String waiting() {
      StringBuilder b = new StringBuilder();
      for (int i = 0; i < n; i++) if (threads[i].state != DONE) b.append("thread ").append(i).append(" waits for ").append(threads[i].state == MONITOR ? "a monitor of " + threads[i].on.getClass().getName() : threads[i].state == INIT ? "initialisation of " + threads[i].on : threads[i].state == JLOCK ? "a lock" : "a notification").append("; ");
      return b.toString();
    }
    void step(MT m) {
      if (abort) throw ABORT;
      if (++steps > STEP_LIMIT) { fail("no progress after " + STEP_LIMIT + " steps (endless loop)"); throw ABORT; }
      if (++m.streak > STREAK && m.noSwitch == 0) choose(m, true);
    }
    void point(MT m) { if (m.noSwitch == 0) choose(m, false); }

    // ---- accesses
    Loc record(MT m, Object o, int f, boolean w, int site) {
      int h = (o == null ? 0 : System.identityHashCode(o)) * 31 + f * 0x9E3779B9;
      int mask = table.length - 1, i = (h ^ h >>> 15) & mask;
      Loc l;
      while ((l = table[i]) != null && (l.o != o || l.f != f)) i = i + 1 & mask;
      if (l == null) {
        l = table[i] = new Loc(o, f);
        if (++nlocs * 2 > table.length) {
          Loc[] old = table;
          table = new Loc[old.length * 2];
          for (Loc x : old) if (x != null) {
            int g = (x.o == null ? 0 : System.identityHashCode(x.o)) * 31 + x.f * 0x9E3779B9, mk = table.length - 1, j = (g ^ g >>> 15) & mk;
            while (table[j] != null) j = j + 1 & mk;
            table[j] = x;
          }
        }
      }
      for (Acc a : l.a) if (a.thread == m.id && a.site == site && a.write == w && a.lock == m.heldId && a.vc == m.vc && a.in.equals(m.inInit)) { if (m.passed.size() < a.passedLen) a.passedLen = m.passed.size(); return l; }
      Acc a = new Acc();
      a.thread = m.id; a.site = site; a.write = w; a.lock = m.heldId; a.passedLen = m.passed.size(); a.vc = m.vc;
      a.in = m.inInit.isEmpty() ? Collections.emptyList() : new ArrayList<>(m.inInit);
      l.a.add(a);
      return l;
    }
    /** Inside a class initialiser the same code is another site: its accesses are mostly ordered by the initialisation. */
    int at(MT m, int site) { return m.inInit.isEmpty() ? site : site | 1 << 22; }
    void access(MT m, Object o, int f, boolean w, int site) {
      site = at(m, site);
      step(m);
      Loc l = record(m, o, f, w, site);
      if (sites.get(site)) point(m);
      if (Weaver.isVolatile(f)) { if (w) release(m, l); else acquire(m, l); }
    }
    /** An atomic operation of an unwoven object: orders what was done before it and what follows it. */
    void atomic(MT m, Object o, boolean w, int site) {
      site = at(m, site);
      step(m);
      Loc l = record(m, o, Hooks.ATOMIC, w, site);
      if (sites.get(site)) point(m);
      acquire(m, l);
      m.atoms.add(w ? l : null);
    }
    void atomicDone(MT m) {
      Loc l = m.atoms.isEmpty() ? null : m.atoms.remove(m.atoms.size() - 1);
      if (l != null) release(m, l);
      jepoch++;
    }
    void acquire(MT m, Loc l) { if (l.clock != null) m.vc = join(m.vc, l.clock); }
    void release(MT m, Loc l) {
      l.clock = l.clock == null ? m.vc : join(l.clock, m.vc);
      m.vc = m.vc.clone();
      m.vc[m.id]++;
    }
    int[] join(int[] a, int[] b) {
      int[] r = null;
      for (int i = 0; i < a.length; i++) if (b[i] > a[i]) { if (r == null) r = a.clone(); r[i] = b[i]; }
      return r == null ? a : r;
    }
    void element(MT m, Object a, int i, boolean w, int site) {
      site = at(m, site);
      step(m);
      record(m, a, -16 - i, w, site);
      record(m, a, Hooks.ANY, w, site);
      if (sites.get(site)) point(m);
    }
    void heldChanged(MT m) {
      Object[] h = m.held.toArray();
      for (int i = 0; i < locksets.size(); i++) if (same(locksets.get(i), h)) { m.heldId = i; return; }
      locksets.add(h);
      m.heldId = locksets.size() - 1;
    }
    boolean same(Object[] a, Object[] b) { if (a.length != b.length) return false; for (int i = 0; i < a.length; i++) if (a[i] != b[i]) return false; return true; }

    // ---- monitors and locks
    void enter(MT m, Object o, int site) {
      site = at(m, site);
      step(m);
      Mon k = mon(o);
      if (k.owner == m) { k.count++; return; }
      record(m, o, Hooks.MON, true, site);
      if (sites.get(site)) point(m);
      while (k.owner != null) {
        if (m.noSwitch > 0) { stalled = true; giveUp(); throw ABORT; }
        m.state = MONITOR; m.on = o; choose(m, false);
      }
      k.owner = m; k.count = 1;
      m.held.add(o); heldChanged(m);
    }
    void exit(MT m, Object o) {
      if (abort) return;
      Mon k = mon(o);
      if (k.owner != m) throw new IllegalMonitorStateException();
      if (--k.count == 0) { k.owner = null; drop(m, o); }
    }
    void drop(MT m, Object o) { for (int i = m.held.size() - 1; i >= 0; i--) if (m.held.get(i) == o) { m.held.remove(i); break; } heldChanged(m); }
    void waitOn(MT m, Object o) {
      step(m);
      Mon k = mon(o);
      if (k.owner != m) throw new IllegalMonitorStateException();
      int c = k.count;
      k.owner = null; k.count = 0; drop(m, o);
      m.state = WAITING; m.on = o;
      choose(m, false);
      while (k.owner != null) { m.state = MONITOR; m.on = o; choose(m, false); }
      k.owner = m; k.count = c; m.held.add(o); heldChanged(m);
    }
    void notifyAll(Object o) { for (int i = 0; i < n; i++) if (threads[i].state == WAITING && threads[i].on == o) threads[i].state = MONITOR; }
    void yieldNow(MT m) { step(m); if (m.noSwitch == 0) choose(m, true); }
    /** Acquires l, one attempt at a time; id is the lock its modes belong to. */
    long jlock(MT m, Object id, boolean shared, java.util.function.LongSupplier attempt, int site) {
      site = at(m, site);
      step(m);
      record(m, id, Hooks.MON, !shared, site);
      if (sites.get(site)) point(m);
      long r;
      while ((r = attempt.getAsLong()) == 0) {
        if (m.noSwitch > 0) { stalled = true; giveUp(); throw ABORT; }
        m.state = JLOCK; m.on = id; m.epoch = jepoch; choose(m, false);
      }
      m.held.add(tok(id, shared)); heldChanged(m);
      return r;
    }
    void junlock(MT m, Object id, boolean shared) { jepoch++; if (!abort) drop(m, tok(id, shared)); }

    // ---- class initialisation
    void init(MT m, String cls) {
      if (abort) throw ABORT;
      if (m.passed.containsKey(cls) || ready.contains(cls)) return;
      for (String c : Weaver.inits(cls)) {
        if (m.passed.containsKey(c) || ready.contains(c)) continue;
        Ini i = inis.computeIfAbsent(c, k -> new Ini());
        if (i.owner == m && !i.done) continue;                    // recursive request
        int s = Weaver.id("site:init " + c);
        record(m, c, Hooks.MON, true, s);
        if (!i.done && sites.get(s)) point(m);
        while (!i.done && i.owner != null) {
          if (m.noSwitch > 0) { stalled = true; giveUp(); throw ABORT; }
          m.state = INIT; m.on = c; choose(m, false);
        }
        if (!i.done) {
          i.owner = m;
          m.inInit.add(c);
          try { Class.forName(c.replace('/', '.'), true, loader); }
          catch (ClassNotFoundException e) { throw new NoClassDefFoundError(c); }
          finally { m.inInit.remove(c); i.done = true; }
        }
        m.passed.putIfAbsent(c, m.passed.size());
      }
      m.passed.putIfAbsent(cls, m.passed.size());
    }

    void finished(MT m) {
      m.state = DONE;
      if (!abort) choose(m, false);
    }
    void left() { synchronized (this) { left++; } LockSupport.unpark(main); }

    // ---- conflicts
    /** Adds the sites of unordered conflicting accesses; true if there were new ones. */
    boolean conflicts(BitSet out) {
      boolean news = false;
      for (Loc l : table) {
        if (l == null) continue;
        if (l.f == Hooks.ALL) { Loc any = find(l.o, Hooks.ANY); if (any != null) news |= pairs(l.a, any.a, false, out); }
        if (l.f != Hooks.ANY) news |= pairs(l.a, l.a, l.f == Hooks.MON || l.f == Hooks.ATOMIC || Weaver.isVolatile(l.f), out);
      }
      return news;
    }
    Loc find(Object o, int f) { for (Loc l : table) if (l != null && l.o == o && l.f == f) return l; return null; }
    boolean pairs(List<Acc> p, List<Acc> q, boolean sync, BitSet out) {
      boolean news = false;
      for (Acc a : p) for (Acc b : q) {
        if (a.thread == b.thread || !a.write && !b.write) continue;
        if (out.get(a.site) && out.get(b.site)) continue;
        if (common(locksets.get(a.lock), locksets.get(b.lock))) continue;
        if (before(a, b) || before(b, a)) continue;
        if (!sync && (b.vc[a.thread] >= a.vc[a.thread] || a.vc[b.thread] >= b.vc[b.thread])) continue; // ordered by volatile or atomic accesses, which are explored themselves
        out.set(a.site); out.set(b.site);
        news = true;
      }
      return news;
    }
    boolean common(Object[] a, Object[] b) { for (Object x : a) for (Object y : b) if (excludes(x, y)) return true; return false; }
    boolean excludes(Object x, Object y) {
      if (x instanceof Tok && y instanceof Tok) return ((Tok) x).l == ((Tok) y).l && !(((Tok) x).shared && ((Tok) y).shared);
      return x == y;
    }
    /** a happened inside an initialiser that b's thread had waited for. */
    boolean before(Acc a, Acc b) {
      for (String c : a.in) { Integer p = threads[b.thread].passed.get(c); if (p != null && p < b.passedLen) return true; }
      return false;
    }
  }

  MT[] threads;
  BitSet lastSites;
  /** Executions given up because a thread blocked outside the scheduler. */
  static volatile int stalls;
  Sched(int max) { newThreads(max, 1024); }
  void newThreads(int max, long slots) {
    threads = new MT[max];
    for (int i = 0; i < max; i++) { threads[i] = MT.make(this, i, slots); threads[i].start(); }
  }
  /** New threads, which inherit what the current thread has. */
  void renew() {
    for (MT t : threads) { t.quit = true; LockSupport.unpark(t); }
    newThreads(threads.length, 64);
  }

  /** A program to explore: built anew for every execution. */
  interface Prog {
    int count();
    ClassLoader loader();
    /** Classes (internal names) initialised during set-up. */
    Set<String> ready();
    Runnable[] threads(Exec x);
    /** Null, or what is wrong with the finished execution. */
    String verdict(Exec x);
  }

  Exec execute(Prog p, int[] prefix, BitSet sites) {
    final Exec e = new Exec(p.count(), prefix, sites, p.loader(), p.ready());
    Runnable[] bodies = p.threads(e);
    for (int i = 0; i < e.n; i++) {
      MT t = threads[i];
      t.state = RUN; t.on = null; t.noSwitch = 0; t.streak = 0; t.heldId = 0;
      t.held.clear(); t.inInit.clear(); t.passed.clear();
      t.vc = new int[e.n]; t.vc[i] = 1; t.atoms.clear();
    }
    for (int i = 0; i < e.n; i++) { threads[i].body = bodies[i]; threads[i].x = e; }
    // first choice: who starts
    int c = 0;
    if (e.n > 1) {
      int[] en = new int[e.n];
      for (int i = 0; i < e.n; i++) en[i] = i;
      if (prefix.length > 0) c = prefix[0];
      e.decs.add(new Dec(en, c, false));
    }
    e.turn = threads[c];
    for (int i = 0; i < e.n; i++) LockSupport.unpark(threads[i]);
    long t0 = System.nanoTime(), seen = -1, since = t0;
    while (e.left < e.n) {
      LockSupport.parkNanos(50_000_000L);
      long now = System.nanoTime();
      MT at = e.turn;
      Thread.State st = at.getState(); // the running thread blocks in something the scheduler does not control
      if (e.steps != seen || st == Thread.State.RUNNABLE) { seen = e.steps; since = now; }
      if (now - t0 > 30_000_000_000L || now - since > 3_000_000_000L && !e.abort) {
        stalls++;
        e.stalled = true;
        e.abort = true;
        for (MT t : threads) { t.quit = true; LockSupport.unpark(t); }
        newThreads(threads.length, 1024);
        break;
      }
    }
    return e;
  }

  static final class Result {
    long executions, decisions, steps; int sites; boolean complete = true; String capped;
    final Set<String> outcomes = new HashSet<>();
    String violation; int[] schedule; int preemptions;
  }

  /** The choices of one execution. */
  static final class Trace {
    final byte[] chosen, en, used; final boolean[] running;
    Trace(List<Dec> decs) {
      int n = decs.size();
      chosen = new byte[n]; en = new byte[n]; used = new byte[n]; running = new boolean[n];
      int u = 0;
      for (int i = 0; i < n; i++) {
        Dec d = decs.get(i);
        chosen[i] = (byte) d.chosen; en[i] = (byte) d.en.length; running[i] = d.running; used[i] = (byte) u;
        if (d.running && d.chosen != 0) u++;
      }
    }
  }
  /** The executions that follow another up to some point after its own prefix and then choose otherwise, with c preemptions; last point first. */
  static final class Alts {
    final Trace t; final int from, c; int i, alt; boolean start;
    Alts() { t = null; from = 0; c = 0; start = true; }
    Alts(Trace t, int from, int c) { this.t = t; this.from = from; this.c = c; i = t.chosen.length; alt = 0; }
    boolean seek() {
      while (true) {
        if (--alt < 0) { if (--i < from) return false; alt = t.en[i]; continue; }
        if (alt != t.chosen[i] && t.used[i] + (t.running[i] && alt != 0 ? 1 : 0) == c) return true;
      }
    }
    boolean any() { int j = i, a = alt; boolean r = seek(); if (r) { i = j; alt = a; } return r; }
    int[] next() {
      if (t == null) { boolean s = start; start = false; return s ? new int[0] : null; }
      if (!seek()) return null;
      int[] p = new int[i + 1];
      for (int j = 0; j < i; j++) p[j] = t.chosen[j];
      p[i] = alt;
      return p;
    }
  }

  /** Explores all executions with at most bound preemptions; stops at the first violation. */
  Result explore(Supplier<Prog> prog, int bound, long maxExec, double maxSecs) {
    long began = System.nanoTime();
    Result r = new Result();
    BitSet sites = lastSites = new BitSet();
    if (stalls > 8) { r.complete = false; r.capped = "threads block outside the scheduler"; return r; }
    restart:
    while (true) {
      List<ArrayDeque<Alts>> q = new ArrayList<>();
      for (int i = 0; i <= bound; i++) q.add(new ArrayDeque<>());
      q.get(0).add(new Alts());
      for (int cost = 0; cost <= bound; cost++) {
        ArrayDeque<Alts> w = q.get(cost);
        while (!w.isEmpty()) {
          int[] prefix = w.peekLast().next();
          if (prefix == null) { w.pollLast(); continue; }
          if (r.executions >= maxExec) { r.complete = false; r.capped = "execution cap " + maxExec + " reached at " + cost + " preemptions"; return r; }
          if ((System.nanoTime() - began) / 1e9 > maxSecs) { r.complete = false; r.capped = "time cap reached at " + cost + " preemptions"; return r; }
          Prog p = prog.get();
          Exec x = execute(p, prefix, sites);
          r.executions++; r.decisions += x.decs.size(); r.steps += x.steps;
          if (x.stalled) { r.complete = false; r.capped = "a thread blocked outside the scheduler"; return r; }
          if (x.diverged) { r.complete = false; r.capped = "a schedule prefix could not be replayed"; continue; }
          String v = x.failure != null ? x.failure : p.verdict(x);
          if (v != null) {
            int[] full = x.decs.stream().mapToInt(d -> d.chosen).toArray();
            // replay twice: the same schedule must fail the same way
            boolean stable = true;
            for (int i = 0; i < 2 && stable; i++) {
              Prog p2 = prog.get();
              Exec y = execute(p2, full, sites);
              String v2 = y.diverged || y.stalled ? null : y.failure != null ? y.failure : p2.verdict(y);
              stable = v.equals(v2);
              r.executions++;
            }
            if (stable) { r.violation = v; r.schedule = full; r.preemptions = cost; r.sites = sites.cardinality(); return r; }
            r.complete = false; r.capped = "an outcome could not be replayed";
          }
          if (x.failure == null && x.conflicts(sites)) continue restart;
          Trace t = new Trace(x.decs);
          for (int c = cost; c <= bound; c++) { Alts a = new Alts(t, prefix.length, c); if (a.any()) q.get(c).add(a); }
        }
      }
      r.sites = sites.cardinality();
      return r;
    }
  }
}
