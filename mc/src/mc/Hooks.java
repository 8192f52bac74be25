package mc;

import java.util.concurrent.Semaphore;
import java.util.concurrent.locks.*;

/** Called from woven code. Threads that are not under the scheduler pass through. */
public final class Hooks {
  static Sched.MT me() { Thread t = Thread.currentThread(); return t instanceof Sched.MT && ((Sched.MT) t).x != null ? (Sched.MT) t : null; }

  static final int ANY = -1, ALL = -2, EXT = -3, MON = -4, ATOMIC = -5; // pseudo fields of an object; array elements are -16-index

  public static void rd(Object o, int f, int s) { Sched.MT m = me(); if (m != null && o != null) m.x.access(m, o, f, false, s); }
  public static void wr(Object o, int f, int s) { Sched.MT m = me(); if (m != null && o != null) m.x.access(m, o, f, true, s); }
  public static void rds(int f, int s) { Sched.MT m = me(); if (m != null) m.x.access(m, null, f, false, s); }
  public static void wrs(int f, int s) { Sched.MT m = me(); if (m != null) m.x.access(m, null, f, true, s); }
  public static void ard(Object a, int i, int s) { Sched.MT m = me(); if (m != null && a != null) m.x.element(m, a, i, false, s); }
  public static void awr(Object a, int i, int s) { Sched.MT m = me(); if (m != null && a != null) m.x.element(m, a, i, true, s); }

  static final ClassValue<Integer> KIND = new ClassValue<Integer>() {
    @Override protected Integer computeValue(Class<?> c) {
      ClassLoader l = c.getClassLoader();
      if (l instanceof Weaver.Loader || l instanceof Weaver.JdkLoader) return 0;      // woven itself
      if (c.isArray()) return 3;
      String n = c.getName();
      if (n.startsWith("java.util.concurrent.")) return 2;                            // atomic
      if (c.isHidden() || n.contains("$Proxy") || n.startsWith("java.lang.invoke.") || Weaver.plain(n.replace('.', '/')) || c.isEnum()) return 0;
      return 1;                                                                       // unknown, possibly shared
    }
  };
  public static void pre(Object o, int s, int read) {
    Sched.MT m = me();
    if (m == null || o == null) return;
    int k = KIND.get(o.getClass());
    if (k == 0) return;
    if (k == 2) { m.x.atomic(m, o, read == 0, s); m.noSwitch++; }
    else m.x.access(m, o, EXT, read == 0, s);
  }
  public static void post(Object o) {
    Sched.MT m = me();
    if (m != null && o != null && KIND.get(o.getClass()) == 2) { m.noSwitch--; m.x.atomicDone(m); }
  }
  public static void arg(Object o, int s) {
    Sched.MT m = me();
    if (m == null || o == null) return;
    int k = KIND.get(o.getClass());
    if (k == 0) return;
    m.x.access(m, o, k == 3 ? ALL : EXT, true, s);
  }

  public static void menter(Object o, int s) { Sched.MT m = me(); if (o == null) throw new NullPointerException(); if (m != null) m.x.enter(m, o, s); }
  public static void mexit(Object o) { Sched.MT m = me(); if (m != null) m.x.exit(m, o); }
  public static void waitOn(Object o) throws InterruptedException { Sched.MT m = me(); if (m != null) m.x.waitOn(m, o); }
  public static void notifyAll(Object o) { Sched.MT m = me(); if (m != null) m.x.notifyAll(o); }
  public static void yieldNow() { Sched.MT m = me(); if (m != null) m.x.yieldNow(m); }
  static final java.lang.reflect.Field RL = sync("ReadLock"), WL = sync("WriteLock");
  static java.lang.reflect.Field sync(String c) {
    try {
      java.lang.reflect.Field f = Class.forName("java.util.concurrent.locks.ReentrantReadWriteLock$" + c).getDeclaredField("sync");
      f.setAccessible(true);
      return f;
    } catch (ReflectiveOperationException | RuntimeException e) { return null; }
  }
  /** The lock whose modes exclude one another. */
  static Object lockId(Object o) {
    try {
      if (o instanceof ReentrantReadWriteLock.ReadLock && RL != null) return RL.get(o);
      if (o instanceof ReentrantReadWriteLock.WriteLock && WL != null) return WL.get(o);
    } catch (IllegalAccessException e) { throw new IllegalStateException(e); }
    return o;
  }
  static boolean shared(Object o) { return o instanceof ReentrantReadWriteLock.ReadLock && RL != null && WL != null; }
  public static void jlock(Object o, int s) {
    Sched.MT m = me();
    Lock l = (Lock) o;
    if (m == null) l.lock(); else m.x.jlock(m, lockId(o), shared(o), () -> l.tryLock() ? 1 : 0, s);
  }
  public static void junlock(Object o, int s) {
    Sched.MT m = me();
    ((Lock) o).unlock();
    if (m != null) m.x.junlock(m, lockId(o), shared(o));
  }
  public static long stampedRead(StampedLock o, int s) { Sched.MT m = me(); return m == null ? o.readLock() : m.x.jlock(m, o, true, o::tryReadLock, s); }
  public static long stampedWrite(StampedLock o, int s) { Sched.MT m = me(); return m == null ? o.writeLock() : m.x.jlock(m, o, false, o::tryWriteLock, s); }
  public static void stampedUnlock(StampedLock o, long st) {
    Sched.MT m = me();
    boolean read = StampedLock.isReadLockStamp(st);
    o.unlock(st);
    if (m != null) m.x.junlock(m, o, read);
  }
  public static void acquire(Semaphore o, int s) { Sched.MT m = me(); if (m == null) o.acquireUninterruptibly(); else { m.x.jlock(m, o, false, () -> o.tryAcquire() ? 1 : 0, s); } }
  public static void release(Semaphore o) { Sched.MT m = me(); o.release(); if (m != null) m.x.junlock(m, o, false); }
  public static void init(String cls) { Sched.MT m = me(); if (m != null) m.x.init(m, cls); }

  /** X::new as a supplier. */
  public static java.util.function.Supplier<Object> maker(String cls, Class<?> user) {
    return new java.util.function.Supplier<Object>() {
      java.lang.reflect.Constructor<?> c;
      @Override public Object get() {
        try {
          init(cls);
          if (c == null) { c = Class.forName(cls.replace('/', '.'), true, user.getClassLoader()).getDeclaredConstructor(); c.setAccessible(true); }
          return c.newInstance();
        } catch (java.lang.reflect.InvocationTargetException e) { throw Hooks.<RuntimeException>sneak(e.getCause()); }
        catch (ReflectiveOperationException e) { throw new NoClassDefFoundError(cls + ": " + e); }
      }
    };
  }
  @SuppressWarnings("unchecked") static <T extends Throwable> T sneak(Throwable t) throws T { throw (T) t; }
  public static void clinit(Class<?> c) { if (me() == null && c.getClassLoader() instanceof Weaver.Loader) ((Weaver.Loader) c.getClassLoader()).ready.add(c.getName().replace('.', '/')); }

  static final ClassValue<Boolean> OWN_HASH = new ClassValue<Boolean>() {
    @Override protected Boolean computeValue(Class<?> c) {
      try { return c.getMethod("hashCode").getDeclaringClass() != Object.class; } catch (NoSuchMethodException e) { return true; }
    }
  };
  /** Deterministic hash codes for objects that would use their identity. */
  public static int hash(Object o) {
    if (o instanceof Class) return ((Class<?>) o).getName().hashCode();
    if (o instanceof Enum) return ((Enum<?>) o).name().hashCode();
    return OWN_HASH.get(o.getClass()) ? o.hashCode() : idHash(o);
  }
  public static int idHash(Object o) { return o == null ? 0 : o instanceof Class ? ((Class<?>) o).getName().hashCode() : o.getClass().getName().length() * 7919; }
}
