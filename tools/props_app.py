prop("P20", "A generated application prints what its main function computes",
     "The application generated for a command runs the command's main function, plain or async, on the command-line arguments as texts, with the context that the command's context function makes of them, and prints the text it returns. "
     "A command without a main function gives an application that prints its arguments, and one without a context function runs with the default context. "
     "It does so on the JavaScript, Java and C++ targets, whichever package the functions are in and whatever the Java domain is.",
     ["programs", "inputs", "configurations"],
     "every combination of main function, context function and package, every list of arguments, each target",
     "The tests generate applications but never run one, and compare the text of one fixed application.",
     ["src/vxlisp/lang.go", "src/vxlisp/lang-js.go", "src/vxlisp/lang-cpp.go", CORE],
     [("Java", "src/vxlisp/lang.go LangApp"), ("JavaScript", "src/vxlisp/lang-js.go JsApp"), ("C++", "src/vxlisp/lang-cpp.go CppApp")],
     TLA + "VxApp says what an application prints for its arguments; drawn applications are generated, built and run on the three targets",
     "Twenty applications with four argument lists each on three targets per quick run, of 160 in all; arguments hold quotes, blanks, line ends and non-ASCII text. " + TRUST)

prop("P21", "A guarded function runs only for users who may call it",
     "A function declared with a permission is carried out only when the context's user may call that very function, not another of the same short name in another package, wherever the call stands: in an argument, a binding, a condition, a function written in place, or deep inside other functions. "
     "Otherwise its body is not evaluated and the call gives the empty value of its type, while functions without a permission run for everybody. "
     "The context with its user, functions and permissions reaches every function that asks for it unchanged.",
     ["programs", "inputs", "configurations"],
     "every program of guarded and unguarded functions, every set of allowed functions and permissions, each target",
     "No test calls a guarded function at all.",
     ["src/vxlisp/lang-func.go", "src/vxlisp/lang-js.go", "src/vxlisp/lang-cpp.go", "src/vxlisp/func.go", CORE] + NAT,
     [("guard", "src/vxlisp/lang-func.go, src/vxlisp/lang-js.go, src/vxlisp/lang-cpp.go (permission)"), ("who may call", "dist/vxlisp/vx/core.vxlisp boolean-permission<-func, is-pass<-permission")],
     TLA + "VxApp gives the outcome of every function for every context; drawn programs are compiled and every pair is run on the three targets",
     "About 850 calls per quick run. Allowing one of several functions of one name in one package is not specified. " + TRUST,
     state=[{"name": "context", "meaning": "user, allowed functions and permissions of a run", "where": "dist/vxlisp/vx/core.vxlisp"}])
