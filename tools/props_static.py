prop("P08", "A program is accepted exactly when its names, calls and types are right",
     "A program in which every name is declared and in scope, every call gives the arguments its function declares and every value fits the type declared for its place is accepted. "
     "A program with an unknown function, variable, constant, property or type, a name used outside its scope, too few or too many arguments, or an argument, binding, condition or result of another type than is declared is rejected with an error that names the package, and nothing is generated.",
     ["programs"],
     "every program, nested and combined in any way, and every place at which one thing in it is wrong",
     "The tests compile correct programs only; the forms in which an error can hide are endless.",
     ["src/vxlisp/value.go", "src/vxlisp/func.go", "src/vxlisp/arg.go", "src/vxlisp/signature.go", "src/vxlisp/scope.go", "src/vxlisp/type.go", "src/vxlisp/const.go"],
     [("names are looked up", "src/vxlisp/value.go ValueLink, src/vxlisp/scope.go"), ("types are compared", "src/vxlisp/value.go ValueValidate, src/vxlisp/type.go BooleanMatchFromTypeType"),
      ("arguments are counted", "src/vxlisp/arg.go ListArgMergeValues"), ("overloads are chosen", "src/vxlisp/signature.go IsSignatureMatch")],
     TLA + "VxCheck is a type system of its own: it draws functions that make sense, damages one thing in them and judges both; the compiler must agree with every judgement",
     "Expressions up to depth three over seven types, eighteen functions of two packages with overloads, bindings, conditionals, threads and properties; damages of ten kinds. The places where the compiler is more lenient are known findings, and the specification leaves them out. " + TRUST)
