prop("P27", "Every test written next to a declaration is run once and judged rightly",
     "The test suite made of a program carries out every test written next to a type, a constant or a function, overloads included, exactly once, and says of each whether it passes by the values it compares; a package with a failing test is reported as failing and no other is. "
     "The coverage it reports counts every declaration once and those with tests and with documentation. "
     "With a filter exactly the tests of the named declaration are run, on the JavaScript, Java and C++ targets.",
     ["programs", "configurations"],
     "every program with tests next to its declarations, every filter, each target",
     "The repository's own suites all pass, so a test that is skipped, run twice or always called passed goes unseen, and nothing compares the number of tests run with the number written.",
     ["src/vxlisp/lang-test.go", "src/vxlisp/lang-testlib.go", "src/vxlisp/lang-native.go", "src/vxlisp/lang-js.go", "src/vxlisp/lang-cpp.go", "src/vxlisp/func.go", "src/vxlisp/type.go", "src/vxlisp/const.go", "dist/vxlisp/vx/test.vxlisp"],
     [("Java suites", "src/vxlisp/lang-test.go LangTestApp, src/vxlisp/lang-testlib.go"), ("JavaScript suites", "src/vxlisp/lang-js.go JsTestFromPackage"), ("C++ suites", "src/vxlisp/lang-cpp.go CppTestFromPackage"), ("reading tests", "src/vxlisp/func.go, src/vxlisp/type.go, src/vxlisp/const.go (:test)"), ("verdicts", "dist/vxlisp/vx/test.vxlisp")],
     TLA + "VxSuite draws packages of tested declarations, carries the suite out test by test and gives verdicts and coverage; the generated suites of the three targets are built and run and every test, verdict and number is compared",
     "Eight packages with about seventy tests, some meant to fail, and six runs with and without a filter per quick run. The numbers a suite gives under a filter, how a backslash is shown, and tests of async calls are not specified. " + TRUST,
     state=[{"name": "suite", "meaning": "tests carried out so far with their verdicts, per package", "where": "generated test packages"}])
