package vh;

import java.net.URL;
import java.net.URLClassLoader;
import java.nio.file.Files;
import java.nio.file.Path;
import java.nio.file.Paths;
import java.util.HashMap;
import java.util.List;
import java.util.Map;
import java.util.stream.Collectors;
import java.util.stream.Stream;
import org.objectweb.asm.ClassReader;
import org.objectweb.asm.ClassVisitor;
import org.objectweb.asm.ClassWriter;
import org.objectweb.asm.FieldVisitor;
import org.objectweb.asm.Label;
import org.objectweb.asm.MethodVisitor;
import org.objectweb.asm.Opcodes;
import org.objectweb.asm.Type;

/**
 * Copies a directory of classes, inserting scheduling points: before accesses to non-final fields,
 * before calls into java.util, at monitor operations, and after blocking calls. Usage: in out
 */
public final class Instrument {

  static final String SCHED = "vh/Sched";
  static final Map<String, Integer> fieldAccess = new HashMap<>();
  static int site;

  public static void main(String[] a) throws Exception {
    Path in = Paths.get(a[0]);
    Path out = Paths.get(a[1]);
    List<Path> files;
    try (Stream<Path> s = Files.walk(in)) {
      files = s.filter(p -> p.toString().endsWith(".class")).sorted().collect(Collectors.toList());
    }
    for (Path f : files) {
      ClassReader cr = new ClassReader(Files.readAllBytes(f));
      cr.accept(new ClassVisitor(Opcodes.ASM9) {
        @Override
        public FieldVisitor visitField(int acc, String name, String d, String sig, Object v) {
          fieldAccess.put(cr.getClassName() + "." + name, acc);
          return null;
        }
      }, ClassReader.SKIP_CODE);
    }
    URLClassLoader ld = new URLClassLoader(new URL[]{in.toUri().toURL()},
        Instrument.class.getClassLoader());
    for (Path f : files) {
      Path o = out.resolve(in.relativize(f).toString());
      Files.createDirectories(o.getParent());
      Files.write(o, transform(Files.readAllBytes(f), ld));
    }
  }

  static byte[] transform(byte[] b, ClassLoader ld) {
    ClassReader cr = new ClassReader(b);
    ClassWriter cw = new ClassWriter(ClassWriter.COMPUTE_FRAMES) {
      @Override
      protected ClassLoader getClassLoader() {
        return ld;
      }
    };
    cr.accept(new CV(cw), ClassReader.EXPAND_FRAMES);
    return cw.toByteArray();
  }

  static final class CV extends ClassVisitor {

    String cls;
    boolean itf;

    CV(ClassVisitor cv) {
      super(Opcodes.ASM9, cv);
    }

    @Override
    public void visit(int v, int acc, String name, String sig, String sup, String[] itfs) {
      cls = name;
      itf = (acc & Opcodes.ACC_INTERFACE) != 0;
      super.visit(v, acc, name, sig, sup, itfs);
    }

    @Override
    public MethodVisitor visitMethod(int acc, String name, String d, String sig, String[] ex) {
      if ((acc & Opcodes.ACC_SYNCHRONIZED) != 0 && (acc & Opcodes.ACC_ABSTRACT) == 0) {
        String inner = name + "$sync";
        wrapper(acc & ~Opcodes.ACC_SYNCHRONIZED, name, d, sig, ex, inner);
        int ia = (acc & (Opcodes.ACC_STATIC | Opcodes.ACC_SYNCHRONIZED)) | Opcodes.ACC_PRIVATE
            | Opcodes.ACC_SYNTHETIC;
        return new MV(super.visitMethod(ia, inner, d, null, ex), inner);
      }
      MethodVisitor mv = super.visitMethod(acc, name, d, sig, ex);
      return mv == null || (acc & Opcodes.ACC_ABSTRACT) != 0 ? mv : new MV(mv, name);
    }

    private void wrapper(int acc, String name, String d, String sig, String[] ex, String inner) {
      MethodVisitor m = super.visitMethod(acc, name, d, sig, ex);
      boolean st = (acc & Opcodes.ACC_STATIC) != 0;
      m.visitCode();
      Label s = new Label();
      Label e = new Label();
      Label h = new Label();
      m.visitTryCatchBlock(s, e, h, null);
      lock(m, st);
      m.visitMethodInsn(Opcodes.INVOKESTATIC, SCHED, "monEnter", "(Ljava/lang/Object;)V", false);
      m.visitLabel(s);
      int l = 0;
      if (!st) {
        m.visitVarInsn(Opcodes.ALOAD, l++);
      }
      for (Type t : Type.getArgumentTypes(d)) {
        m.visitVarInsn(t.getOpcode(Opcodes.ILOAD), l);
        l += t.getSize();
      }
      m.visitMethodInsn(st ? Opcodes.INVOKESTATIC : Opcodes.INVOKESPECIAL, cls, inner, d, itf);
      m.visitLabel(e);
      lock(m, st);
      m.visitMethodInsn(Opcodes.INVOKESTATIC, SCHED, "monExit", "(Ljava/lang/Object;)V", false);
      m.visitInsn(Type.getReturnType(d).getOpcode(Opcodes.IRETURN));
      m.visitLabel(h);
      lock(m, st);
      m.visitMethodInsn(Opcodes.INVOKESTATIC, SCHED, "monExit", "(Ljava/lang/Object;)V", false);
      m.visitInsn(Opcodes.ATHROW);
      m.visitMaxs(0, 0);
      m.visitEnd();
    }

    private void lock(MethodVisitor m, boolean st) {
      if (st) {
        m.visitLdcInsn(Type.getObjectType(cls));
      } else {
        m.visitVarInsn(Opcodes.ALOAD, 0);
      }
    }
  }

  static final class MV extends MethodVisitor {

    final String name;

    MV(MethodVisitor mv, String name) {
      super(Opcodes.ASM9, mv);
      this.name = name;
    }

    private void y() {
      super.visitLdcInsn(++site);
      super.visitMethodInsn(Opcodes.INVOKESTATIC, SCHED, "y", "(I)V", false);
    }

    @Override
    public void visitFieldInsn(int op, String owner, String n, String d) {
      Integer acc = fieldAccess.get(owner + "." + n);
      boolean init = name.equals("<init>") || name.equals("<clinit>");
      if (acc != null && (acc & Opcodes.ACC_FINAL) == 0 && !init) {
        y();
      }
      super.visitFieldInsn(op, owner, n, d);
    }

    @Override
    public void visitMethodInsn(int op, String owner, String n, String d, boolean itf) {
      if (owner.equals("java/util/concurrent/CountDownLatch") && n.equals("await")) {
        super.visitMethodInsn(Opcodes.INVOKESTATIC, SCHED, "await",
            d.replace("(", "(Ljava/util/concurrent/CountDownLatch;"), false);
        y();
        return;
      }
      if (owner.startsWith("java/util/concurrent/locks/") && d.equals("()V")
          && (n.equals("lock") || n.equals("lockInterruptibly"))) {
        super.visitMethodInsn(Opcodes.INVOKESTATIC, SCHED, "lock",
            "(Ljava/util/concurrent/locks/Lock;)V", false);
        y();
        return;
      }
      if (owner.equals("java/lang/Thread") && n.equals("sleep") && d.equals("(J)V")) {
        super.visitMethodInsn(Opcodes.INVOKESTATIC, SCHED, "sleep", d, false);
        return;
      }
      if (owner.equals("java/util/concurrent/Executors") && (n.equals("newSingleThreadExecutor")
          || n.equals("newFixedThreadPool") || n.equals("newCachedThreadPool"))) {
        super.visitMethodInsn(Opcodes.INVOKESTATIC, SCHED, n, d, false);
        return;
      }
      boolean ju = owner.startsWith("java/util/") && !owner.startsWith("java/util/stream/")
          && !owner.startsWith("java/util/function/") && !n.equals("<init>")
          && !owner.equals("java/util/StringJoiner") && !owner.equals("java/util/Objects");
      if (ju && !name.equals("<clinit>")) {
        y();
      }
      super.visitMethodInsn(op, owner, n, d, itf);
      if (ju && (n.equals("lock") || n.equals("acquire") || n.equals("await") || n.equals("take")
          || n.equals("put") && owner.contains("BlockingQueue") || n.equals("get")
          && owner.contains("Future")) || owner.equals("java/lang/Thread") && n.equals("join")
          || owner.equals("java/lang/Object") && n.equals("wait")) {
        y();
      }
    }

    @Override
    public void visitInsn(int op) {
      if (op == Opcodes.MONITORENTER) {
        super.visitInsn(Opcodes.DUP);
        super.visitMethodInsn(Opcodes.INVOKESTATIC, SCHED, "monEnter", "(Ljava/lang/Object;)V",
            false);
        super.visitInsn(op);
      } else if (op == Opcodes.MONITOREXIT) {
        super.visitInsn(Opcodes.DUP);
        super.visitInsn(op);
        super.visitMethodInsn(Opcodes.INVOKESTATIC, SCHED, "monExit", "(Ljava/lang/Object;)V",
            false);
      } else {
        super.visitInsn(op);
      }
    }
  }

  private Instrument() {
  }
}
