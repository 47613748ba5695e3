// Resolves the test suites of the packages under vp/ and prints one JSON line for each package of the suite.
import { pathToFileURL } from "node:url"
const root = process.argv[2]
const load = async (p) => (await import(pathToFileURL(root + "/" + p).href)).default
const vx_core = await load("src/vx/core.js")
const vx_test = await load("src/vx/test.js")
const app_test = await load("test/app_test.js")
const get = (type, struct, obj, key) => vx_core.f_any_from_struct({ "any-1": type, "struct-2": struct }, obj, key)
const context = vx_test.f_context_test()
for (const pkg of app_test.f_testpackagelist_from_all_test(context)) {
  const name = String(get(vx_core.t_string, vx_test.t_testpackage, pkg, ":testpkg"))
  if (!name.startsWith("vp/")) {
    continue
  }
  const out = { pkg: name, cases: [], nums: {}, maps: {} }
  const done = await vx_test.f_resolve_testpackage(pkg)
  out.pass = get(vx_core.t_boolean, vx_test.t_testpackage, done, ":passfail") === true
  for (const tc of get(vx_test.t_testcaselist, vx_test.t_testpackage, done, ":caselist")) {
    const c = String(get(vx_core.t_string, vx_test.t_testcase, tc, ":casename"))
    for (const td of get(vx_test.t_testdescribelist, vx_test.t_testcase, tc, ":describelist")) {
      const r = get(vx_test.t_testresult, vx_test.t_testdescribe, td, ":testresult")
      out.cases.push([c, String(get(vx_core.t_string, vx_test.t_testdescribe, td, ":describename")),
        get(vx_core.t_boolean, vx_test.t_testresult, r, ":passfail") === true])
    }
  }
  const sum = get(vx_test.t_testcoveragesummary, vx_test.t_testpackage, pkg, ":coveragesummary")
  for (const k of ["type", "const", "func", "doc", "total"]) {
    const n = get(vx_test.t_testcoveragenums, vx_test.t_testcoveragesummary, sum, ":" + k + "nums")
    out.nums[k] = [":pct", ":tests", ":total"].map((p) => Number(get(vx_core.t_int, vx_test.t_testcoveragenums, n, p)))
  }
  const det = get(vx_test.t_testcoveragedetail, vx_test.t_testpackage, pkg, ":coveragedetail")
  for (const k of ["type", "const", "func"]) {
    out.maps[k] = String(vx_core.f_string_from_any(get(vx_core.t_intmap, vx_test.t_testcoveragedetail, det, ":" + k + "map")))
  }
  console.log("@@S " + JSON.stringify(out))
}
console.log("@@E")
process.exit(0)
