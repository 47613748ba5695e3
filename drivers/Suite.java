// Resolves the test suites of the generated JUnit class under vp/, prints one JSON line for each, and runs each as the class does.
import com.vxlisp.vx.Core;
import com.vxlisp.vx.Test;
import java.lang.reflect.*;
import java.util.*;

public final class Suite {
  static String q(String s) {
    StringBuilder b = new StringBuilder("\"");
    for (char c : s.toCharArray()) {
      if (c == '"' || c == '\\') {
        b.append('\\').append(c);
      } else if (c < 32 || c > 126) {
        b.append(String.format("\\u%04x", (int) c));
      } else {
        b.append(c);
      }
    }
    return b.append("\"").toString();
  }
  static String nums(Test.Type_testcoveragenums n) {
    return "[" + n.pct().vx_int() + "," + n.tests().vx_int() + "," + n.total().vx_int() + "]";
  }
  public static void main(String[] args) throws Exception {
    Core.Type_context context = Test.f_context_test(Core.e_anylist);
    Class<?> app = Class.forName("AppTest");
    for (Method t : app.getDeclaredMethods()) {
      if (!t.getName().startsWith("test_vp_")) {
        continue;
      }
      String[] part = t.getName().substring(5).split("_");
      String last = part[part.length - 1];
      String name = args[0] + String.join(".", Arrays.copyOf(part, part.length - 1)) + "." + last.substring(0, 1).toUpperCase() + last.substring(1) + "Test";
      Method m = Class.forName(name).getMethod("test_package", Core.Type_context.class);
      Test.Type_testpackage pkg = (Test.Type_testpackage) m.invoke(null, context);
      Test.Type_testpackage done = Core.vx_sync_from_async(Test.t_testpackage, Test.f_resolve_testpackage(pkg));
      List<String> cases = new ArrayList<>();
      for (Test.Type_testcase tc : done.caselist().vx_listtestcase()) {
        for (Test.Type_testdescribe td : tc.describelist().vx_listtestdescribe()) {
          cases.add("[" + q(tc.casename().vx_string()) + "," + q(td.describename().vx_string()) + "," + td.testresult().passfail().vx_boolean() + "]");
        }
      }
      Test.Type_testcoveragesummary s = pkg.coveragesummary();
      Test.Type_testcoveragedetail d = pkg.coveragedetail();
      System.out.println("@@S {\"pkg\":" + q(pkg.testpkg().vx_string()) + ",\"pass\":" + done.passfail().vx_boolean() + ",\"cases\":[" + String.join(",", cases) + "]"
        + ",\"nums\":{\"type\":" + nums(s.typenums()) + ",\"const\":" + nums(s.constnums()) + ",\"func\":" + nums(s.funcnums())
        + ",\"doc\":" + nums(s.docnums()) + ",\"total\":" + nums(s.totalnums()) + "}"
        + ",\"maps\":{\"type\":" + q(Core.f_string_from_any(d.typemap()).vx_string()) + ",\"const\":" + q(Core.f_string_from_any(d.constmap()).vx_string())
        + ",\"func\":" + q(Core.f_string_from_any(d.funcmap()).vx_string()) + "}}");
      t.setAccessible(true);
      Constructor<?> make = app.getDeclaredConstructor();
      make.setAccessible(true);
      try {
        t.invoke(make.newInstance());
      } catch (InvocationTargetException e) {
        if (!(e.getCause() instanceof AssertionError)) {
          throw e;
        }
        System.out.println("@@F " + pkg.testpkg().vx_string());
      }
    }
    System.out.println("@@E");
    System.exit(0);
  }
}
