FRONT = ["src/vxlisp/value.go", "src/vxlisp/scope.go", "src/vxlisp/signature.go", "src/vxlisp/func.go", "src/vxlisp/arg.go", "src/vxlisp/const.go"]
EMIT = ["src/vxlisp/lang-func.go", "src/vxlisp/lang-js.go", "src/vxlisp/lang-cpp.go", "src/vxlisp/lang-const.go"]

prop("P07", "Every name and form in a program means what the language says it means",
     "A name means the innermost binding that is in scope: a parameter, a local binding that the later ones can use, then a constant, type or function of its own package, or of the package its qualifier names; a call picks the function of that name whose parameters fit the arguments, and calls with variable arguments, generic and recursive functions, and functions passed by name receive exactly the arguments written. "
     "Threading puts a value into the first or last place of each following call in turn, and reading a position or a property gives exactly that item. "
     "Compiled to JavaScript, Java or C++, such a program gives the value these rules prescribe.",
     ["programs", "inputs", "configurations"],
     "every program over several packages whose constants, functions, parameters and bindings share names, at any nesting of scopes",
     "The tests link fixed snippets with one meaning per name; none binds a name twice, spreads overloads over packages, threads into calls of different arity or reads positions beyond the first few.",
     FRONT + EMIT,
     [("names to declarations", "src/vxlisp/scope.go, src/vxlisp/value.go ValueLink"), ("overloads", "src/vxlisp/signature.go IsSignatureMatch"),
      ("threading and accessors", "src/vxlisp/value.go ValueFromTextblock"), ("captured variables", "src/vxlisp/lang-cpp.go ListCaptureFromFunc")],
     TLA + "an evaluator for multi-package programs (VxLang); enumerated scopes, positions and threadings and simulated programs replayed into the targets",
     "Every nesting of up to three binders over three names, every retyped name, a position table and a threading table are enumerated; larger programs of twelve declarations in three packages are simulated. "
     "Names bound again inside their own scope run on JavaScript and C++ only (recorded finding F07). " + TRUST)
