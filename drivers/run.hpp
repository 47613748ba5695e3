// Calls each generated test function and prints its result as one JSON line.
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <iostream>
#include <unistd.h>
typedef std::string (*vrun_fn)();
static std::string vrun_q(const std::string& s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
static int vrun_main(vrun_fn* table, int n, int c, char** v) {
  int fd = dup(1);
  if (!freopen("/dev/null", "w", stdout)) return 3;
  FILE* out = fdopen(fd, "w");
  for (int i = atoi(v[1]); i < n; i++) {
    fprintf(out, "@@B %d\n", i);
    fflush(out);
    std::string r;
    try {
      std::string s = table[i]();
      long before = vx_core::refcount;
      std::string s2 = table[i]();
      long leak = vx_core::refcount - before;
      if (s != s2) r = "{\"x\":\"unrepeatable\",\"why\":\"second call differs\",\"r\":" + vrun_q(s) + ",\"r2\":" + vrun_q(s2) + "}";
      else r = "{\"r\":" + vrun_q(s) + ",\"leak\":" + std::to_string(leak) + "}";
    } catch (std::exception& e) {
      r = std::string("{\"x\":\"exception\",\"why\":") + vrun_q(e.what()) + "}";
    } catch (...) {
      r = "{\"x\":\"exception\",\"why\":\"unknown\"}";
    }
    fprintf(out, "@@R %d %s\n", i, r.c_str());
    fflush(out);
  }
  fflush(out);
  _Exit(0);
}
