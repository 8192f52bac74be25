package mc;

import java.io.*;
import java.util.*;
import java.util.concurrent.ConcurrentHashMap;
import org.objectweb.asm.*;
import org.objectweb.asm.commons.*;

/**
 * Rewrites the library under test (and woven copies of the JDK collections it uses) so that every shared-memory
 * access, monitor operation, class initialisation and call into unwoven code passes through Hooks.
 */
public final class Weaver {
  static final Set<String> JDK = new HashSet<>(Arrays.asList("HashMap", "LinkedHashMap", "TreeMap", "AbstractMap", "Collections",
      "ArrayList", "HashSet", "LinkedHashSet", "Hashtable", "ArrayDeque", "LinkedList", "Vector", "Stack"));

  static boolean jdkWoven(String in) {
    if (!in.startsWith("java/util/")) return false;
    String s = in.substring(10);
    int d = s.indexOf('$');
    if (s.indexOf('/') >= 0) return false;
    return JDK.contains(d < 0 ? s : s.substring(0, d));
  }
  static boolean woven(String in) { return in.startsWith("com/finproto/") || in.startsWith("mcw/"); }
  static final Remapper REMAP = new Remapper() {
    @Override public String map(String n) { return jdkWoven(n) ? "mcw/" + n.substring(10) : n; }
  };

  // ---- class facts ---------------------------------------------------------------------------------
  static final class Info {
    String name, sup; String[] itf; boolean isItf, clinit, hasDefault;
    final Map<String, Integer> fields = new HashMap<>();
  }
  static final Map<String, Info> INFO = new ConcurrentHashMap<>();
  static final Info NONE = new Info();
  static byte[] raw(String in) {
    if (in.startsWith("mcw/")) {
      try (InputStream s = ClassLoader.getSystemResourceAsStream("java/util/" + in.substring(4) + ".class")) { return s == null ? null : s.readAllBytes(); }
      catch (IOException e) { return null; }
    }
    return Sut.CachingLoader.bytes(in.replace('/', '.'));
  }
  static Info info(String in) {
    if (in == null || !woven(in)) return null;
    Info i = INFO.get(in);
    if (i == null) {
      byte[] b = raw(in);
      i = NONE;
      if (b != null) {
        Info x = new Info();
        new ClassReader(b).accept(new ClassRemapper(new ClassVisitor(Opcodes.ASM9) {
          @Override public void visit(int v, int a, String n, String s, String sup, String[] itf) { x.name = n; x.sup = sup; x.itf = itf; x.isItf = (a & Opcodes.ACC_INTERFACE) != 0; }
          @Override public FieldVisitor visitField(int a, String n, String d, String s, Object v) { x.fields.put(n, a); return null; }
          @Override public MethodVisitor visitMethod(int a, String n, String d, String s, String[] e) {
            if (n.equals("<clinit>")) x.clinit = true;
            else if ((a & (Opcodes.ACC_ABSTRACT | Opcodes.ACC_STATIC)) == 0) x.hasDefault = true;
            return null;
          }
        }, REMAP), ClassReader.SKIP_CODE | ClassReader.SKIP_DEBUG | ClassReader.SKIP_FRAMES);
        i = x;
      }
      INFO.put(in, i);
    }
    return i == NONE ? null : i;
  }
  /** The classes whose static initialisers run when in is initialised, itself last. */
  static List<String> inits(String in) { List<String> l = new ArrayList<>(); inits(in, l, true); return l; }
  private static void inits(String in, List<String> l, boolean self) {
    Info i = info(in);
    if (i == null || !in.startsWith("com/finproto/")) return;
    if (!i.isItf) {
      inits(i.sup, l, true);
      for (String f : i.itf) { Info j = info(f); if (j != null && j.hasDefault) inits(f, l, true); }
    }
    if (i.clinit && !l.contains(in)) l.add(in);
  }
  static final Map<String, Boolean> NEEDS = new ConcurrentHashMap<>();
  static boolean needsInit(String in) { return in.startsWith("com/finproto/") && NEEDS.computeIfAbsent(in, k -> !inits(k).isEmpty()); }

  /** Declaring class and access flags of a field, or null. */
  static Object[] field(String owner, String n) {
    for (Info i = info(owner); i != null; i = info(i.sup)) {
      Integer a = i.fields.get(n);
      if (a != null) return new Object[] {i.name, a};
      for (String f : i.itf) { Object[] x = field(f, n); if (x != null) return x; }
    }
    return null;
  }

  // ---- site and field numbers ------------------------------------------------------------------------
  static final Map<String, Integer> IDS = new HashMap<>();
  static final List<String> NAMES = new ArrayList<>();
  static int id(String s) {
    synchronized (IDS) {
      Integer i = IDS.get(s);
      if (i == null) { i = NAMES.size(); IDS.put(s, i); NAMES.add(s); }
      return i;
    }
  }
  static final boolean[] VOLATILE = new boolean[1 << 22];
  static boolean isVolatile(int f) { return f >= 0 && f < VOLATILE.length && VOLATILE[f]; }
  static String name(int id) { synchronized (IDS) { return NAMES.get(id); } }

  // ---- weaving -----------------------------------------------------------------------------------------
  static final Map<String, byte[]> CACHE = new ConcurrentHashMap<>();
  static byte[] weave(String in) {
    byte[] c = CACHE.get(in);
    if (c != null) return c;
    byte[] b = raw(in);
    if (b == null) return null;
    ClassReader r = new ClassReader(b);
    ClassWriter w = new ClassWriter(ClassWriter.COMPUTE_MAXS);
    r.accept(new ClassRemapper(new Cls(w), REMAP), 0);
    byte[] prev = CACHE.putIfAbsent(in, c = w.toByteArray());
    return prev != null ? prev : c;
  }

  static final String H = "mc/Hooks";
  static boolean plain(String o) {
    if (o.startsWith("[") || o.startsWith("java/util/function/")) return true;
    switch (o) {
      case "java/lang/String": case "java/lang/Integer": case "java/lang/Long": case "java/lang/Short": case "java/lang/Byte":
      case "java/lang/Character": case "java/lang/Boolean": case "java/lang/Double": case "java/lang/Float": case "java/lang/Number":
      case "java/lang/Math": case "java/lang/Enum": case "java/lang/Class": case "java/lang/Object": case "java/util/Objects":
      case "java/lang/ThreadLocal": case "java/lang/CharSequence": case "java/lang/Comparable": case "java/util/Comparator":
      case "java/nio/charset/Charset": case "java/util/Optional": case "java/lang/StrictMath": return true;
      default: return o.endsWith("Exception") || o.endsWith("Error");
    }
  }
  static boolean reads(String n) {
    if (n.startsWith("getAnd")) return false;
    for (String p : new String[] {"get", "is", "has", "size", "length", "contains", "equals", "hashCode", "toString", "compareTo", "charAt", "readable", "capacity", "readerIndex", "writerIndex", "indexOf", "iterator", "entrySet", "keySet", "values", "forEach", "stream", "slice", "duplicate"})
      if (n.startsWith(p)) return true;
    return false;
  }

  static final class Cls extends ClassVisitor implements Opcodes {
    String cls; boolean itf; int bridges; int seq;
    Cls(ClassVisitor c) { super(ASM9, c); }
    @Override public void visit(int v, int a, String n, String s, String sup, String[] i) { cls = n; itf = (a & ACC_INTERFACE) != 0; super.visit(v, a, n, s, sup, i); }
    @Override public MethodVisitor visitMethod(int a, String n, String d, String s, String[] e) {
      if ((a & ACC_SYNCHRONIZED) != 0 && (a & (ACC_ABSTRACT | ACC_NATIVE)) == 0) {
        String body = n + "$mcs";
        boolean st = (a & ACC_STATIC) != 0;
        MethodVisitor w = super.visitMethod(a & ~ACC_SYNCHRONIZED, n, d, s, e);
        w.visitCode();
        Label t0 = new Label(), t1 = new Label(), h = new Label();
        w.visitTryCatchBlock(t0, t1, h, null);
        lock(w, st); push(w, id("site:" + cls + "." + n + d + "#sync")); w.visitMethodInsn(INVOKESTATIC, H, "menter", "(Ljava/lang/Object;I)V", false);
        w.visitLabel(t0);
        int slot = 0;
        if (!st) w.visitVarInsn(ALOAD, slot++);
        for (Type t : Type.getArgumentTypes(d)) { w.visitVarInsn(t.getOpcode(ILOAD), slot); slot += t.getSize(); }
        w.visitMethodInsn(st ? INVOKESTATIC : INVOKESPECIAL, cls, body, d, itf);
        w.visitLabel(t1);
        lock(w, st); w.visitMethodInsn(INVOKESTATIC, H, "mexit", "(Ljava/lang/Object;)V", false);
        w.visitInsn(Type.getReturnType(d).getOpcode(IRETURN));
        w.visitLabel(h);
        lock(w, st); w.visitMethodInsn(INVOKESTATIC, H, "mexit", "(Ljava/lang/Object;)V", false);
        w.visitInsn(ATHROW);
        w.visitMaxs(0, 0);
        w.visitEnd();
        return new Mth(super.visitMethod(ACC_PRIVATE | ACC_SYNTHETIC | (st ? ACC_STATIC : 0), body, d, s, e), n + d, n);
      }
      return new Mth(super.visitMethod(a, n, d, s, e), n + d, n);
    }
    void lock(MethodVisitor w, boolean st) { if (st) w.visitLdcInsn(Type.getObjectType(cls)); else w.visitVarInsn(ALOAD, 0); }
    static void push(MethodVisitor w, int x) { w.visitLdcInsn(x); }

    /** A static method that announces and then performs a call into unwoven code. */
    String bridge(int op, String o, String n, String d, boolean oi, int site) {
      String name = "mc$b" + bridges++;
      String bd = op == INVOKESTATIC ? d : "(L" + o + ";" + d.substring(1);
      MethodVisitor w = super.visitMethod(ACC_STATIC | ACC_SYNTHETIC | (itf ? ACC_PUBLIC : ACC_PRIVATE), name, bd, null, null);
      w.visitCode();
      Label t0 = new Label(), t1 = new Label(), h = new Label();
      if (op != INVOKESTATIC && o.startsWith("java/util/concurrent/locks/") && (n.equals("lock") || n.equals("lockInterruptibly") || n.equals("unlock")) && d.equals("()V")) {
        w.visitVarInsn(ALOAD, 0); push(w, site);
        w.visitMethodInsn(INVOKESTATIC, H, n.equals("unlock") ? "junlock" : "jlock", "(Ljava/lang/Object;I)V", false);
        w.visitInsn(RETURN);
      } else {
        if (op != INVOKESTATIC) w.visitTryCatchBlock(t0, t1, h, null);
        int slot = 0, first = -1;
        for (Type t : Type.getArgumentTypes(bd)) {
          if (slot == 0 && op != INVOKESTATIC) {
            w.visitVarInsn(ALOAD, 0); push(w, site); push(w, reads(n) ? 1 : 0);
            w.visitMethodInsn(INVOKESTATIC, H, "pre", "(Ljava/lang/Object;II)V", false);
          } else if (t.getSort() == Type.ARRAY || t.getSort() == Type.OBJECT && mutableArg(t.getInternalName())) {
            w.visitVarInsn(ALOAD, slot); push(w, site);
            w.visitMethodInsn(INVOKESTATIC, H, "arg", "(Ljava/lang/Object;I)V", false);
          }
          slot += t.getSize();
        }
        w.visitLabel(t0);
        slot = 0;
        for (Type t : Type.getArgumentTypes(bd)) { w.visitVarInsn(t.getOpcode(ILOAD), slot); slot += t.getSize(); }
        w.visitMethodInsn(op, o, n, d, oi);
        w.visitLabel(t1);
        if (op != INVOKESTATIC) { w.visitVarInsn(ALOAD, 0); w.visitMethodInsn(INVOKESTATIC, H, "post", "(Ljava/lang/Object;)V", false); }
        w.visitInsn(Type.getReturnType(d).getOpcode(IRETURN));
        if (op != INVOKESTATIC) {
          w.visitLabel(h);
          w.visitVarInsn(ALOAD, 0); w.visitMethodInsn(INVOKESTATIC, H, "post", "(Ljava/lang/Object;)V", false);
          w.visitInsn(ATHROW);
        }
      }
      w.visitMaxs(0, 0);
      w.visitEnd();
      this.seq++;
      pending.put(name, bd);
      return name;
    }
    final Map<String, String> pending = new HashMap<>();
    static boolean arrayArg(String d) { return d.startsWith("([") || d.lastIndexOf('[', d.indexOf(')')) > 0; }
    static boolean mutableArg(String n) { return n.startsWith("io/netty/buffer/") || n.equals("java/lang/StringBuilder") || n.equals("java/nio/ByteBuffer") || n.equals("java/lang/Object"); }

    final class Mth extends MethodVisitor {
      final String m; final boolean init, clinit; int n;
      Mth(MethodVisitor v, String m, String name) { super(ASM9, v); this.m = m; init = name.equals("<init>"); clinit = name.equals("<clinit>"); }
      @Override public void visitCode() {
        super.visitCode();
        if (clinit && cls.startsWith("com/finproto/")) { super.visitLdcInsn(Type.getObjectType(cls)); hook("clinit", "(Ljava/lang/Class;)V"); }
      }
      /** Constructor and static method references initialise their class when called. */
      @Override public void visitInvokeDynamicInsn(String n, String d, Handle b, Object... a) {
        if (n.equals("get") && d.equals("()Ljava/util/function/Supplier;") && a.length == 3 && a[1] instanceof Handle && ((Handle) a[1]).getTag() == H_NEWINVOKESPECIAL
            && ((Handle) a[1]).getDesc().equals("()V") && woven(((Handle) a[1]).getOwner())) { // the same function, without generating a class for it
          super.visitLdcInsn(((Handle) a[1]).getOwner());
          super.visitLdcInsn(Type.getObjectType(cls));
          hook("maker", "(Ljava/lang/String;Ljava/lang/Class;)Ljava/util/function/Supplier;");
          return;
        }
        for (int i = 0; i < a.length; i++) if (a[i] instanceof Handle) {
          Handle h = (Handle) a[i];
          boolean ctor = h.getTag() == H_NEWINVOKESPECIAL;
          if (!ctor && h.getTag() != H_INVOKESTATIC || h.getOwner().equals(cls) || !needsInit(h.getOwner())) continue;
          String name = "mc$b" + bridges++, bd = ctor ? h.getDesc().substring(0, h.getDesc().lastIndexOf(')') + 1) + "L" + h.getOwner() + ";" : h.getDesc();
          MethodVisitor w = Cls.this.cv.visitMethod(ACC_STATIC | ACC_SYNTHETIC | (itf ? ACC_PUBLIC : ACC_PRIVATE), name, bd, null, null);
          w.visitCode();
          w.visitLdcInsn(h.getOwner()); w.visitMethodInsn(INVOKESTATIC, H, "init", "(Ljava/lang/String;)V", false);
          if (ctor) { w.visitTypeInsn(NEW, h.getOwner()); w.visitInsn(DUP); }
          int slot = 0;
          for (Type t : Type.getArgumentTypes(bd)) { w.visitVarInsn(t.getOpcode(ILOAD), slot); slot += t.getSize(); }
          w.visitMethodInsn(ctor ? INVOKESPECIAL : INVOKESTATIC, h.getOwner(), h.getName(), h.getDesc(), h.isInterface());
          w.visitInsn(Type.getReturnType(bd).getOpcode(IRETURN));
          w.visitMaxs(0, 0);
          w.visitEnd();
          a[i] = new Handle(H_INVOKESTATIC, cls, name, bd, itf);
        }
        super.visitInvokeDynamicInsn(n, d, b, a);
      }
      int site(String what) { return id("site:" + cls + "." + m + "#" + (n++) + ":" + what); }
      void hook(String name, String d) { super.visitMethodInsn(INVOKESTATIC, H, name, d, false); }
      void init(String o) {
        if (o.equals(cls) || !needsInit(o)) return;
        super.visitLdcInsn(o);
        hook("init", "(Ljava/lang/String;)V");
      }
      @Override public void visitTypeInsn(int op, String t) { if (op == NEW) init(t); super.visitTypeInsn(op, t); }
      @Override public void visitFieldInsn(int op, String o, String f, String d) {
        boolean st = op == GETSTATIC || op == PUTSTATIC;
        if (st) init(o);
        Object[] fl = field(o, f);
        if (fl != null && ((Integer) fl[1] & (ACC_FINAL | ACC_SYNTHETIC)) == 0 && !(init && !st && o.equals(cls))) {
          int fid = id("field:" + fl[0] + "." + f), s = site(f);
          if (((Integer) fl[1] & ACC_VOLATILE) != 0) VOLATILE[fid] = true;
          boolean two = d.equals("J") || d.equals("D");
          switch (op) {
            case GETFIELD: super.visitInsn(DUP); push(mv, fid); push(mv, s); hook("rd", "(Ljava/lang/Object;II)V"); break;
            case PUTFIELD:
              if (two) { super.visitInsn(DUP2_X1); super.visitInsn(POP2); super.visitInsn(DUP_X2); }
              else { super.visitInsn(SWAP); super.visitInsn(DUP_X1); }
              push(mv, fid); push(mv, s); hook("wr", "(Ljava/lang/Object;II)V");
              break;
            case GETSTATIC: push(mv, fid); push(mv, s); hook("rds", "(II)V"); break;
            default: push(mv, fid); push(mv, s); hook("wrs", "(II)V");
          }
        }
        super.visitFieldInsn(op, o, f, d);
      }
      @Override public void visitInsn(int op) {
        switch (op) {
          case IALOAD: case LALOAD: case FALOAD: case DALOAD: case AALOAD: case BALOAD: case CALOAD: case SALOAD:
            super.visitInsn(DUP2); push(mv, site("aload")); hook("ard", "(Ljava/lang/Object;II)V"); break;
          case IASTORE: case FASTORE: case AASTORE: case BASTORE: case CASTORE: case SASTORE:
            super.visitInsn(DUP_X2); super.visitInsn(POP); super.visitInsn(DUP2_X1); push(mv, site("astore")); hook("awr", "(Ljava/lang/Object;II)V"); break;
          case LASTORE: case DASTORE:
            super.visitInsn(DUP2_X2); super.visitInsn(POP2); super.visitInsn(DUP2_X2); push(mv, site("astore")); hook("awr", "(Ljava/lang/Object;II)V"); break;
          case MONITORENTER: push(mv, site("monitor")); hook("menter", "(Ljava/lang/Object;I)V"); return;
          case MONITOREXIT: hook("mexit", "(Ljava/lang/Object;)V"); return;
          default:
        }
        super.visitInsn(op);
      }
      @Override public void visitMethodInsn(int op, String o, String name, String d, boolean oi) {
        if (op == INVOKESTATIC) init(o);
        if (op == INVOKESPECIAL && name.equals("<init>") && !woven(o) && arrayArg(d)) { // what the constructor reads from shared arrays
          Type[] ts = Type.getArgumentTypes(d);
          int[] at = new int[ts.length];
          int slot = 150;
          for (int i = ts.length - 1; i >= 0; i--) { at[i] = slot; super.visitVarInsn(ts[i].getOpcode(ISTORE), slot); slot += ts[i].getSize(); }
          for (int i = 0; i < ts.length; i++) {
            super.visitVarInsn(ts[i].getOpcode(ILOAD), at[i]);
            if (ts[i].getSort() == Type.ARRAY) { super.visitInsn(DUP); push(mv, site("new " + o)); hook("arg", "(Ljava/lang/Object;I)V"); }
          }
        }
        if (op == INVOKESPECIAL || woven(o)) { super.visitMethodInsn(op, o, name, d, oi); return; }
        if (name.equals("hashCode") && d.equals("()I") && (o.equals("java/lang/Object") || o.equals("java/lang/Class"))) { hook("hash", "(Ljava/lang/Object;)I"); return; }
        if (o.equals("java/lang/System") && name.equals("identityHashCode")) { hook("idHash", "(Ljava/lang/Object;)I"); return; }
        if (o.equals("java/lang/Object") && (name.equals("notify") || name.equals("notifyAll")) ) { hook("notifyAll", "(Ljava/lang/Object;)V"); return; }
        if (o.equals("java/lang/Object") && name.equals("wait") && d.equals("()V")) { hook("waitOn", "(Ljava/lang/Object;)V"); return; }
        if (o.equals("java/lang/Thread") && op == INVOKESTATIC && (name.equals("yield") || name.equals("onSpinWait"))) { hook("yieldNow", "()V"); return; }
        if (o.equals("java/lang/Thread") && op == INVOKESTATIC && name.equals("sleep") && d.equals("(J)V")) { super.visitInsn(POP2); hook("yieldNow", "()V"); return; }
        if (plain(o) && !(arrayArg(d) && o.equals("java/lang/String") && !d.startsWith("([Ljava/lang/Object;") && !name.equals("format")) || o.equals("java/lang/Thread")) { super.visitMethodInsn(op, o, name, d, oi); return; }
        if (o.equals("java/util/concurrent/locks/ReentrantReadWriteLock") && (name.equals("readLock") || name.equals("writeLock")) || o.equals("java/util/concurrent/locks/ReadWriteLock")) { super.visitMethodInsn(op, o, name, d, oi); return; }
        if (o.equals("java/util/concurrent/locks/StampedLock")) {
          String ST = "(Ljava/util/concurrent/locks/StampedLock;";
          if (name.equals("readLock") && d.equals("()J")) { push(mv, site("lock")); hook("stampedRead", ST + "I)J"); return; }
          if (name.equals("writeLock") && d.equals("()J")) { push(mv, site("lock")); hook("stampedWrite", ST + "I)J"); return; }
          if (name.startsWith("unlock") && d.equals("(J)V")) { hook("stampedUnlock", ST + "J)V"); return; }
        }
        if (o.equals("java/util/concurrent/Semaphore") && d.equals("()V")) {
          if (name.startsWith("acquire")) { push(mv, site("lock")); hook("acquire", "(Ljava/util/concurrent/Semaphore;I)V"); return; }
          if (name.equals("release")) { hook("release", "(Ljava/util/concurrent/Semaphore;)V"); return; }
        }
        if (op == INVOKESTATIC) {
          boolean arr = false;
          for (Type t : Type.getArgumentTypes(d)) if (t.getSort() == Type.ARRAY || t.getSort() == Type.OBJECT && mutableArg(t.getInternalName())) arr = true;
          if (!arr) { super.visitMethodInsn(op, o, name, d, oi); return; }
        }
        String b = bridge(op, o, name, d, oi, site("call " + o + "." + name));
        super.visitMethodInsn(INVOKESTATIC, cls, b, pending.get(b), itf);
      }
    }
  }

  // ---- loaders ---------------------------------------------------------------------------------------
  static final class JdkLoader extends ClassLoader {
    JdkLoader() { super(Weaver.class.getClassLoader()); }
    @Override protected Class<?> loadClass(String n, boolean r) throws ClassNotFoundException {
      if (n.startsWith("mcw.")) synchronized (this) { Class<?> c = findLoadedClass(n); return c != null ? c : findClass(n); }
      return super.loadClass(n, r);
    }
    @Override protected Class<?> findClass(String n) throws ClassNotFoundException {
      byte[] b = n.startsWith("mcw.") ? weave(n.replace('.', '/')) : null;
      if (b == null) throw new ClassNotFoundException(n);
      return defineClass(n, b, 0, b.length);
    }
  }
  /** A fresh image of the library under test. The woven JDK collections hold no static state and are shared per worker. */
  static final class Loader extends ClassLoader {
    /** Classes whose initialiser has run outside the scheduler. */
    final Set<String> ready = ConcurrentHashMap.newKeySet();
    Loader(JdkLoader p) { super(p); jdk = p; }
    @Override protected Class<?> loadClass(String n, boolean r) throws ClassNotFoundException {
      if (n.startsWith("com.finproto.")) synchronized (this) { Class<?> c = findLoadedClass(n); return c != null ? c : findClass(n); }
      if (n.startsWith("mcw.")) return jdk.loadClass(n, false);
      Class<?> c = PLATFORM.get(n);
      if (c == null) PLATFORM.put(n, c = super.loadClass(n, r));
      return c;
    }
    static final Map<String, Class<?>> PLATFORM = new ConcurrentHashMap<>();
    final JdkLoader jdk;
    @Override protected Class<?> findClass(String n) throws ClassNotFoundException {
      byte[] b = n.startsWith("com.finproto.") ? weave(n.replace('.', '/')) : null;
      if (b == null) throw new ClassNotFoundException(n);
      return defineClass(n, b, 0, b.length);
    }
  }
}
