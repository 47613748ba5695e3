prop("P19", "An awaited result does not depend on when things happen",
     "An async function gives the same value whatever order the calls it waits for end in: a binding that is awaited holds the result of its call, the bindings around it keep their own values, and a list worked on item by item keeps its order. "
     "Every call the program makes is made exactly once, and nothing that comes after a wait is carried out before it. "
     "This holds for chains of async functions, across packages, on the JavaScript, Java and C++ targets.",
     ["programs", "configurations"],
     "every program of async functions, every order in which the calls it waits for end, each target",
     "The existing tests compare generated text, in which a missing wait, a binding that is not carried over a wait or a second call look as good as any other text; what they do shows only when calls end late or in another order.",
     ["src/vxlisp/lang-js.go", "src/vxlisp/lang-func.go", "src/vxlisp/lang-cpp.go", "src/vxlisp/value.go", "src/vxlisp/arg.go", "src/vxlisp/func.go", "dist/vxlisp/vx/core.vxlisp"],
     [("what is awaited", "src/vxlisp/arg.go, src/vxlisp/value.go (async bindings)"), ("JavaScript waits", "src/vxlisp/lang-js.go JsFromFunc"), ("Java futures", "src/vxlisp/lang-func.go LangFuncLambdaArgIndex"), ("C++ futures and captures", "src/vxlisp/lang-cpp.go CppFromValue (let)"), ("lists", "dist/vxlisp/vx/core.vxlisp list<-list-async")],
     TLA + "VxAsync has tasks that start other tasks, sleep and go on; TLC tries every order in which the tasks of given programs can end and shows that value and number of calls are those of the program; drawn programs are generated, run on the three targets with calls that end late and out of order, and every value and number of calls is compared",
     "Thirty programs of twelve functions with 240 calls per quick run. Shapes whose generated Java or C++ does not compile are recorded findings and not drawn. " + TRUST,
     state=[{"name": "tasks", "meaning": "calls that have been started, sleep or have ended", "where": "generated code, futures and promises"}])
