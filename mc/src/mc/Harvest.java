package mc;

import java.io.IOException;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import java.util.stream.*;
import org.objectweb.asm.*;

/**
 * Constants of the compiled library. They only widen the value alphabets: a value the code compares
 * with is a value worth exploring. The oracle never looks at them.
 */
public final class Harvest {
  public final Map<String, Set<Long>> ints = new HashMap<>();
  public final Map<String, Set<Double>> dbls = new HashMap<>();
  public final Map<String, Set<String>> strs = new HashMap<>();
  /** Classes whose coding compares field values, with the number of such comparisons: their values are explored more deeply. */
  public final Map<String, Integer> branchy = new HashMap<>();
  final Map<Long, Integer> freq = new HashMap<>();
  final Map<String, Integer> sfreq = new HashMap<>();

  public static Harvest load(Path classes) throws IOException {
    Harvest h = new Harvest();
    List<Path> fs;
    try (Stream<Path> s = Files.walk(classes)) { fs = s.filter(p -> p.toString().endsWith(".class")).sorted().collect(Collectors.toList()); }
    for (Path p : fs) h.scan(Files.readAllBytes(p));
    for (Set<Long> s : h.ints.values()) for (Long x : s) h.freq.merge(x, 1, Integer::sum);
    for (Set<String> s : h.strs.values()) for (String x : s) h.sfreq.merge(x, 1, Integer::sum);
    return h;
  }

  void scan(byte[] b) {
    ClassReader r = new ClassReader(b);
    String cls = r.getClassName().replace('/', '.');
    Set<Long> is = ints.computeIfAbsent(cls, k -> new TreeSet<>());
    Set<Double> ds = dbls.computeIfAbsent(cls, k -> new TreeSet<>());
    Set<String> ss = strs.computeIfAbsent(cls, k -> new TreeSet<>());
    r.accept(new ClassVisitor(Opcodes.ASM9) {
      @Override public FieldVisitor visitField(int a, String n, String d, String s, Object v) { cst(v, is, ds, ss); return null; }
      @Override public MethodVisitor visitMethod(int a, String n, String d, String s, String[] e) {
        if (n.equals("toString")) return null;
        boolean plain = n.equals("equals") || n.equals("hashCode") || n.equals("<clinit>") || n.equals("create") || n.equals("register") || n.equals("remove");
        return new MethodVisitor(Opcodes.ASM9) {
          boolean test; // the last instruction gives a value of a field, or the outcome of comparing one
          void branch() { if (!plain) branchy.merge(cls, 1, Integer::sum); }
          @Override public void visitFieldInsn(int op, String o, String f, String fd) { test = op == Opcodes.GETFIELD && fd.length() == 1; }
          @Override public void visitMethodInsn(int op, String o, String f, String fd, boolean itf) { test = (o.equals("java/lang/String") || o.equals("java/util/Objects") || o.startsWith("java/util/regex/") || o.startsWith("com/finproto/")) && (fd.endsWith(")Z") || fd.endsWith(")I") || fd.endsWith(")C")); }
          @Override public void visitVarInsn(int op, int v) { test = false; }
          @Override public void visitTypeInsn(int op, String t) { test = false; }
          @Override public void visitInsn(int op) {
            if (op == Opcodes.LCMP || op == Opcodes.FCMPL || op == Opcodes.FCMPG || op == Opcodes.DCMPL || op == Opcodes.DCMPG) branch();
            test = test && op == Opcodes.IAND || op == Opcodes.IAND;
          }
          @Override public void visitJumpInsn(int op, Label l) {
            if (op == Opcodes.IF_ICMPEQ || op == Opcodes.IF_ICMPNE || op == Opcodes.IF_ICMPLE || op == Opcodes.IF_ICMPGT) branch();
            else if (test && op >= Opcodes.IFEQ && op <= Opcodes.IFLE) branch();
            test = false;
          }
          @Override public void visitLdcInsn(Object v) { cst(v, is, ds, ss); }
          @Override public void visitIntInsn(int op, int v) { if (op != Opcodes.NEWARRAY) is.add((long) v); }
          @Override public void visitTableSwitchInsn(int lo, int hi, Label d2, Label... ls) { branch(); if (hi - lo < 64) for (int i = lo; i <= hi; i++) is.add((long) i); }
          @Override public void visitLookupSwitchInsn(Label d2, int[] keys, Label[] ls) { branch(); for (int k : keys) is.add((long) k); }
          @Override public void visitInvokeDynamicInsn(String n2, String d2, Handle h, Object... args) { for (Object x : args) if (x instanceof String) cst(x, is, ds, ss); }
        };
      }
    }, ClassReader.SKIP_DEBUG | ClassReader.SKIP_FRAMES);
  }
  static void cst(Object v, Set<Long> is, Set<Double> ds, Set<String> ss) {
    if (v instanceof Integer || v instanceof Long || v instanceof Short || v instanceof Byte) is.add(((Number) v).longValue());
    else if (v instanceof Float || v instanceof Double) ds.add(((Number) v).doubleValue());
    else if (v instanceof String && ((String) v).length() <= 256) ss.add((String) v);
  }

  static final int RARE = 3;
  /** Constants relevant to a message: its own class, its enclosing/nested classes, and all non-message (shared) code. */
  List<String> scope(String cls) {
    List<String> l = new ArrayList<>();
    String top = cls.contains("$") ? cls.substring(0, cls.indexOf('$')) : cls;
    for (String c : ints.keySet())
      if (c.equals(top) || c.startsWith(top + "$") || !c.contains(".messages.")) l.add(c);
    Collections.sort(l);
    return l;
  }
  public TreeSet<Long> intsFor(String cls, boolean rareOnly) {
    TreeSet<Long> o = new TreeSet<>();
    for (String c : scope(cls)) for (Long x : ints.get(c)) if (!rareOnly || freq.get(x) <= RARE) o.add(x);
    return o;
  }
  public TreeSet<String> strsFor(String cls, boolean rareOnly) {
    TreeSet<String> o = new TreeSet<>();
    for (String c : scope(cls)) for (String x : strs.get(c)) if (!rareOnly || sfreq.get(x) <= RARE) o.add(x);
    return o;
  }
  public Set<Long> ownInts(String cls) { return ints.getOrDefault(cls, Collections.emptySet()); }
  public Set<String> ownStrs(String cls) { return strs.getOrDefault(cls, Collections.emptySet()); }
  public TreeSet<Double> dblsFor(String cls) {
    TreeSet<Double> o = new TreeSet<>();
    for (String c : scope(cls)) o.addAll(dbls.get(c));
    return o;
  }
}
