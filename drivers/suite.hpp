// Resolves one test suite and prints it as a JSON line.
#include <iostream>
#include <cstdio>

static std::string vs_q(std::string s) {
  std::string b = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      b += '\\';
      b += c;
    } else if (c < 32) {
      char t[8];
      snprintf(t, 8, "\\u%04x", c);
      b += t;
    } else {
      b += c;
    }
  }
  return b + "\"";
}

static std::string vs_nums(vx_test::Type_testcoveragenums n) {
  return "[" + std::to_string(n->pct()->vx_int()) + "," + std::to_string(n->tests()->vx_int()) + "," + std::to_string(n->total()->vx_int()) + "]";
}

static void vs_show(vx_test::Type_testpackage pkg) {
  vx_core::vx_reserve(pkg);
  vx_test::Type_testpackage done = vx_core::vx_sync_from_async(vx_test::t_testpackage, vx_test::f_resolve_testpackage(pkg));
  std::string cases;
  for (auto tc : done->caselist()->vx_listtestcase()) {
    for (auto td : tc->describelist()->vx_listtestdescribe()) {
      cases += std::string(cases == "" ? "" : ",") + "[" + vs_q(tc->casename()->vx_string()) + "," + vs_q(td->describename()->vx_string()) + ","
        + (td->testresult()->passfail()->vx_boolean() ? "true" : "false") + "]";
    }
  }
  auto s = pkg->coveragesummary();
  auto d = pkg->coveragedetail();
  std::cout << "\n@@S {\"pkg\":" << vs_q(pkg->testpkg()->vx_string()) << ",\"pass\":" << (done->passfail()->vx_boolean() ? "true" : "false")
    << ",\"cases\":[" << cases << "]"
    << ",\"nums\":{\"type\":" << vs_nums(s->typenums()) << ",\"const\":" << vs_nums(s->constnums()) << ",\"func\":" << vs_nums(s->funcnums())
    << ",\"doc\":" << vs_nums(s->docnums()) << ",\"total\":" << vs_nums(s->totalnums()) << "}"
    << ",\"maps\":{\"type\":" << vs_q(vx_core::vx_string_from_any(d->typemap())) << ",\"const\":" << vs_q(vx_core::vx_string_from_any(d->constmap()))
    << ",\"func\":" << vs_q(vx_core::vx_string_from_any(d->funcmap())) << "}}" << std::endl;
}

int main() {
  vx_core::Type_context context = vx_test::f_context_test(vx_core::e_anylist);
  vx_core::vx_reserve_context(context);
  for (auto pkg : testsuite(context)->vx_listtestpackage()) {
    std::string name = pkg->testpkg()->vx_string();
    if (name.rfind("vp/", 0) == 0) {
      vs_show(pkg);
    }
  }
  // and once more the way the generated program does it, which tells of failures in its log
  for (auto pkg : testsuite(context)->vx_listtestpackage()) {
    std::string name = pkg->testpkg()->vx_string();
    if (name.rfind("vp/", 0) == 0) {
      std::cout << "\n@@P " << name << std::endl;
      test_lib::run_testpackage_async(pkg);
    }
  }
  std::cout << "\n@@E" << std::endl;
  return 0;
}
