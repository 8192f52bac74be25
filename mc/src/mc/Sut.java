package mc;

import io.netty.buffer.ByteBuf;
import java.io.File;
import java.lang.invoke.*;
import java.lang.reflect.*;
import java.net.MalformedURLException;
import java.net.URL;
import java.util.*;
import mc.Spec.*;

/** One isolated instance of the library under test (own class loader, own static state). */
public final class Sut {
  public final Spec spec;
  public final ClassLoader cl;
  final Map<Msg, MC> byMsg = new HashMap<>();
  final Map<Class<?>, MC> byClass = new HashMap<>();
  final Class<?> codec;
  final MethodHandle encH, decH;

  /** A failure of the library under test that is not an exception the property allows. */
  public static final class Broken extends RuntimeException {
    public Broken(String s, Throwable c) { super(s, c); }
    public Broken(String s) { super(s); }
  }

  public final class MC {
    public final Msg m;
    public final Class<?> c;
    final MethodHandle ctor;
    final MethodHandle[] get, set;
    final Class<?>[] type;
    MC(Msg m) throws Exception {
      this.m = m;
      c = Class.forName(m.cls, true, cl);
      MethodHandles.Lookup l = MethodHandles.publicLookup();
      ctor = l.unreflectConstructor(c.getConstructor()).asType(MethodType.methodType(Object.class));
      int n = m.fields.size();
      get = new MethodHandle[n]; set = new MethodHandle[n]; type = new Class<?>[n];
      for (int i = 0; i < n; i++) {
        String p = m.fields.get(i).name;
        String cap = Character.toUpperCase(p.charAt(0)) + p.substring(1);
        Method g = c.getMethod("get" + cap);
        type[i] = g.getReturnType();
        Method s = c.getMethod("set" + cap, type[i]);
        get[i] = l.unreflect(g).asType(MethodType.methodType(Object.class, Object.class));
        set[i] = l.unreflect(s).asType(MethodType.methodType(void.class, Object.class, Object.class));
      }
    }
    public Object fresh() {
      try { return (Object) ctor.invokeExact(); } catch (Throwable t) { throw new Broken("constructing " + m + ": " + t, t); }
    }
    public Object get(Object o, int i) {
      try { return (Object) get[i].invokeExact(o); } catch (Throwable t) { throw new Broken("getter " + m + "." + m.fields.get(i).name + ": " + t, t); }
    }
    public void set(Object o, int i, Object v) {
      try { set[i].invokeExact(o, v); } catch (Throwable t) { throw new Broken("setter " + m + "." + m.fields.get(i).name + ": " + t, t); }
    }
  }

  public Sut(Spec spec, ClassLoader cl) {
    this.spec = spec;
    this.cl = cl;
    try {
      codec = Class.forName("com.finproto.codec.BinaryCodec", true, cl);
      MethodHandles.Lookup l = MethodHandles.publicLookup();
      encH = l.findVirtual(codec, "encode", MethodType.methodType(void.class, ByteBuf.class))
          .asType(MethodType.methodType(void.class, Object.class, ByteBuf.class));
      decH = l.findVirtual(codec, "decode", MethodType.methodType(void.class, ByteBuf.class))
          .asType(MethodType.methodType(void.class, Object.class, ByteBuf.class));
    } catch (Exception e) { throw new RuntimeException(e); }
  }
  static URL[] URLS;
  public static Sut fresh(Spec spec) {
    try {
      if (URLS == null) URLS = new URL[] {new File(System.getProperty("mc.classes")).toURI().toURL()};
    } catch (MalformedURLException e) { throw new RuntimeException(e); }
    return new Sut(spec, new CachingLoader(Sut.class.getClassLoader()));
  }

  /** Child-first loader for com.finproto classes with a shared byte cache. */
  static final class CachingLoader extends ClassLoader {
    static final Map<String, byte[]> CACHE = new java.util.concurrent.ConcurrentHashMap<>();
    CachingLoader(ClassLoader p) { super(p); }
    @Override protected Class<?> findClass(String n) throws ClassNotFoundException {
      byte[] b = bytes(n);
      if (b == null) throw new ClassNotFoundException(n);
      return defineClass(n, b, 0, b.length);
    }
    static byte[] bytes(String n) {
      byte[] b = CACHE.get(n);
      if (b == null) {
        java.nio.file.Path p = java.nio.file.Paths.get(System.getProperty("mc.classes"), n.replace('.', '/') + ".class");
        try { b = java.nio.file.Files.readAllBytes(p); } catch (java.io.IOException e) { return null; }
        CACHE.put(n, b);
      }
      return b;
    }
    @Override public java.io.InputStream getResourceAsStream(String n) {
      if (n.endsWith(".class")) {
        byte[] b = bytes(n.substring(0, n.length() - 6).replace('/', '.'));
        if (b != null) return new java.io.ByteArrayInputStream(b);
      }
      return super.getResourceAsStream(n);
    }
  }

  public MC mc(Msg m) {
    MC x = byMsg.get(m);
    if (x == null) {
      try { x = new MC(m); } catch (Exception e) { throw new Broken("message class " + m.cls + " unusable: " + e, e); }
      byMsg.put(m, x);
      byClass.put(x.c, x);
    }
    return x;
  }
  MC mcOf(Class<?> c) {
    MC x = byClass.get(c);
    if (x == null) {
      Msg m = spec.msgs.get(c.getName());
      if (m == null) throw new Broken("unexpected message class " + c.getName());
      x = mc(m);
      if (x.c != c) throw new Broken("class of another loader " + c.getName());
    }
    return x;
  }

  public void rawEncode(Object o, ByteBuf b) throws Throwable { encH.invokeExact(o, b); }
  public void rawDecode(Object o, ByteBuf b) throws Throwable { decH.invokeExact(o, b); }
  public void encode(Object o, ByteBuf b) {
    try { encH.invokeExact(o, b); } catch (Throwable t) { throw new Broken("encode threw " + desc(t), t); }
  }
  public void decode(Object o, ByteBuf b) {
    try { decH.invokeExact(o, b); } catch (Throwable t) { throw new Broken("decode threw " + desc(t), t); }
  }
  public static String desc(Throwable t) {
    StackTraceElement[] s = t.getStackTrace();
    return t + (s.length > 0 ? " at " + s[0] : "");
  }

  public Object toObj(Rec r) {
    if (r == null) return null;
    MC x = mc(r.m);
    Object o = x.fresh();
    fill(x, o, r);
    return o;
  }
  public void fill(Object o, Rec r) { fill(mc(r.m), o, r); }
  void fill(MC x, Object o, Rec r) {
    for (int i = 0; i < r.v.length; i++) x.set(o, i, toVal(r.v[i]));
  }
  /** The list implementation handed to setters: groups are declared as List, so any of them has to do. */
  public java.util.function.UnaryOperator<List<Object>> lists = java.util.function.UnaryOperator.identity();
  public static final Map<String, java.util.function.UnaryOperator<List<Object>>> LISTS = new LinkedHashMap<>();
  static {
    LISTS.put("linked", LinkedList::new);
    LISTS.put("unmodifiable", Collections::unmodifiableList);
    LISTS.put("asList", l -> Arrays.asList(l.toArray()));
    LISTS.put("vector", Vector::new);
    LISTS.put("subList", l -> { List<Object> x = new ArrayList<>(l); x.addAll(l); return x.subList(0, l.size()); });
    LISTS.put("copyOnWrite", java.util.concurrent.CopyOnWriteArrayList::new);
  }
  @SuppressWarnings({"removal", "deprecation"})
  public Object toVal(Object v) {
    if (v instanceof Integer) return new Integer((Integer) v); // equal numbers are distinct objects
    if (v instanceof Long) return new Long((Long) v);
    if (v instanceof Short) return new Short((Short) v);
    if (v instanceof Double) return new Double((Double) v);
    if (v instanceof Float) return new Float((Float) v);
    if (v instanceof Rec) return toObj((Rec) v);
    if (v instanceof List) {
      List<?> in = (List<?>) v;
      List<Object> l = new ArrayList<>(in.size());
      for (int i = 0; i < in.size(); i++) { // an element that appears again is the same object
        Object e = in.get(i);
        l.add(i > 0 && e instanceof Rec && e == in.get(0) ? l.get(0) : i > 0 && e instanceof Rec && e == in.get(i - 1) ? l.get(i - 1) : toVal(e));
      }
      return lists.apply(l);
    }
    if (v instanceof String) return new String((String) v); // equal texts are distinct objects
    return v;
  }
  public Rec fromObj(Object o) {
    if (o == null) return null;
    MC x = mcOf(o.getClass());
    Rec r = new Rec(x.m);
    for (int i = 0; i < r.v.length; i++) r.v[i] = fromVal(x.get(o, i));
    return r;
  }
  public Object fromVal(Object v) {
    if (v == null || v instanceof Number || v instanceof String || v instanceof Character || v instanceof Boolean) return v;
    if (v instanceof List) {
      List<Object> l = new ArrayList<>(((List<?>) v).size());
      for (Object e : (List<?>) v) l.add(fromVal(e));
      return l;
    }
    return fromObj(v);
  }

  // ---- registries -------------------------------------------------------------------------
  public final class Reg {
    public final Registry r;
    public final Object inst;
    final Method create, register, remove, rev;
    Reg(Registry r) throws Exception {
      this.r = r;
      Class<?> c = Class.forName(r.factory, true, cl);
      inst = c.getMethod("getInstance").invoke(null);
      Class<?> k = r.keyType.equals("String") ? String.class : r.keyType.equals("Short") ? Short.class : Integer.class;
      create = c.getMethod("create", k);
      remove = c.getMethod("remove", k);
      register = r.reverse ? c.getMethod("register", Class.class, k, java.util.function.Supplier.class)
          : c.getMethod("register", k, java.util.function.Supplier.class);
      rev = r.reverse ? c.getMethod("getMsgType", Class.class) : null;
    }
    public Object create(Object k) throws Throwable { return call(create, inst, k); }
    public boolean remove(Object k) throws Throwable { return (Boolean) call(remove, inst, k); }
    public void register(Class<?> c, Object k, java.util.function.Supplier<?> s) throws Throwable {
      if (r.reverse) call(register, inst, c, k, s); else call(register, inst, k, s);
    }
    public Object rev(Class<?> c) throws Throwable { return call(rev, inst, c); }
  }
  public static Object call(Method m, Object o, Object... a) throws Throwable {
    try { return m.invoke(o, a); } catch (InvocationTargetException e) { throw e.getCause(); }
  }
  final Map<Registry, Reg> regs = new HashMap<>();
  public Reg reg(Registry r) {
    Reg x = regs.get(r);
    if (x == null) {
      try { x = new Reg(r); } catch (Exception e) { throw new Broken("registry " + r + " unusable: " + e, e); }
      regs.put(r, x);
    }
    return x;
  }

  // ---- checksum services ------------------------------------------------------------------
  public final class Sums {
    public final Class<?> svcType;
    final Object f; final Method registry, remove, clear, get; final Method calc, verify, alg;
    Sums() throws Exception {
      svcType = Class.forName("com.finproto.codec.ChecksumService", true, cl);
      Class<?> c = Class.forName("com.finproto.codec.ChecksumServiceFactory", true, cl);
      f = c.getMethod("getInstance").invoke(null);
      registry = c.getMethod("registry", svcType);
      remove = c.getMethod("removeChecksumService", String.class);
      clear = c.getMethod("clearAllChecksumService");
      get = c.getMethod("getChecksumService", String.class);
      calc = svcType.getMethod("calc", Object.class);
      verify = svcType.getMethod("verify", Object.class, Object.class);
      alg = svcType.getMethod("algorithm");
    }
    public boolean registry(Object s) throws Throwable { return (Boolean) call(registry, f, s); }
    public void remove(String n) throws Throwable { call(remove, f, n); }
    public void clear() throws Throwable { call(clear, f); }
    public Object get(String n) throws Throwable { return call(get, f, n); }
    public Object calc(Object s, ByteBuf b) throws Throwable { return call(calc, s, b); }
    public boolean verify(Object s, ByteBuf b, Object x) throws Throwable { return (Boolean) call(verify, s, b, x); }
    public String alg(Object s) throws Throwable { return (String) call(alg, s); }
    public Object std(String name) throws Exception {
      String c = name.equals("CRC16") ? "Crc16" : name.equals("CRC32") ? "Crc32" : name.equals("SSE_BIN") ? "SseBin" : "SzseBin";
      return Class.forName("com.finproto.codec." + c + "ChecksumService", true, cl).getConstructor().newInstance();
    }
    /** A service of our own that computes fn over the readable bytes it is given. */
    @SuppressWarnings("unchecked") static <T extends Throwable> void raise(Throwable t) throws T { throw (T) t; }
    public Object custom(String name, java.util.function.ToIntFunction<byte[]> fn) {
      return Proxy.newProxyInstance(cl, new Class<?>[] {svcType}, (p, m, a) -> {
        switch (m.getName()) {
          case "algorithm": return name;
          case "calc": return fn.applyAsInt(io.netty.buffer.ByteBufUtil.getBytes((ByteBuf) a[0]));
          case "verify": return Objects.equals(fn.applyAsInt(io.netty.buffer.ByteBufUtil.getBytes((ByteBuf) a[0])), a[1]);
          case "hashCode": return System.identityHashCode(p);
          case "equals": return p == a[0];
          default: return "custom:" + name;
        }
      });
    }
  }
  Sums sums;
  public Sums sums() {
    if (sums == null) try { sums = new Sums(); } catch (Exception e) { throw new Broken("checksum registry unusable: " + e, e); }
    return sums;
  }
}
