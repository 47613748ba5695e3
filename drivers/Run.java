// Calls each generated test function and prints its result as one JSON line.
import com.vxlisp.vx.Core;
import java.io.*;
import java.lang.reflect.*;
import java.nio.charset.StandardCharsets;
import java.nio.file.*;
import java.util.*;
import java.util.concurrent.CompletableFuture;

public final class Run {
  static String q(String s) {
    StringBuilder b = new StringBuilder("\"");
    for (char c : s.toCharArray()) {
      if (c == '"' || c == '\\') b.append('\\').append(c);
      else if (c < 32 || c > 126) b.append(String.format("\\u%04x", (int) c));
      else b.append(c);
    }
    return b.append('"').toString();
  }

  static String cls(String pkg) {
    int p = pkg.lastIndexOf('/');
    String n = pkg.substring(p + 1);
    return "com.vxlisp." + pkg.substring(0, p + 1).replace('/', '.') + n.substring(0, 1).toUpperCase() + n.substring(1);
  }

  static Method find(String pkg, String fn) throws Exception {
    for (Method m : Class.forName(cls(pkg)).getMethods())
      if (m.getName().equals("f_" + fn)) return m;
    throw new NoSuchMethodException(pkg + " " + fn);
  }

  static Object call(String pkg, String fn, String ctx) throws Exception {
    Method m = find(pkg, fn);
    Object[] args = new Object[m.getParameterCount()];
    if (args.length > 0) {
      if (ctx.equals("-")) {
        args[0] = Core.e_context;
      } else {
        String[] c = ctx.split("\\|");
        args[0] = find(c[0], c[1]).invoke(null);
      }
    }
    Object v = m.invoke(null, args);
    if (v instanceof CompletableFuture) v = ((CompletableFuture<?>) v).get();
    return v;
  }

  public static void main(String[] args) throws Exception {
    PrintStream out = new PrintStream(new FileOutputStream(FileDescriptor.out), false, "UTF-8");
    System.setOut(new PrintStream(OutputStream.nullOutputStream()));
    List<String> lines = Files.readAllLines(Paths.get(args[0]), StandardCharsets.UTF_8);
    for (int i = Integer.parseInt(args[1]); i < lines.size(); i++) {
      String[] f = lines.get(i).split("\t");
      out.println("@@B " + i);
      out.flush();
      String r;
      try {
        Object v = call(f[0], f[1], f[2]);
        Object w = call(f[0], f[1], f[2]);
        if (!(v instanceof Core.Type_string)) {
          r = "{\"x\":\"notstring\",\"why\":" + q(String.valueOf(v)) + "}";
        } else {
          String s = ((Core.Type_string) v).vx_string();
          String s2 = ((Core.Type_string) w).vx_string();
          if (!s.equals(s2)) r = "{\"x\":\"unrepeatable\",\"why\":\"second call differs\",\"r\":" + q(s) + ",\"r2\":" + q(s2) + "}";
          else r = "{\"r\":" + q(s) + "}";
        }
      } catch (Throwable e) {
        if (e instanceof InvocationTargetException && e.getCause() != null) e = e.getCause();
        StringWriter w = new StringWriter();
        e.printStackTrace(new PrintWriter(w));
        String t = w.toString();
        r = "{\"x\":\"exception\",\"why\":" + q(t.substring(0, Math.min(600, t.length()))) + "}";
      }
      out.println("@@R " + i + " " + r);
      out.flush();
    }
    out.flush();
    System.exit(0);
  }
}
