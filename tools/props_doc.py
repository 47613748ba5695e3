prop("P28", "The documentation page tells of each declaration once, as it is written",
     "The documentation page made of a project has exactly one entry for every package, type, constant and function of it and of the library, each function of one name apart, with its text, its parts, its tests and its source as written, whatever characters they hold. "
     "Every link leads to the entry of the very declaration it names, also where several packages use one name. "
     "Texts about declarations never change the generated programs.",
     ["programs", "inputs"],
     "every project, every text about a declaration, every link of the page, all declarations of the library",
     "No test looks at a documentation page.",
     ["src/vxlisp/doc.go", "src/vxlisp/type.go", "src/vxlisp/arg.go", "src/vxlisp/textblock.go", "src/vxlisp/lang-native.go", "src/vxlisp/scope.go"],
     [("page", "src/vxlisp/doc.go HtmlFromProject"), ("names", "src/vxlisp/type.go ListTypeLink, src/vxlisp/arg.go ArgLinkType"), ("texts in programs", "src/vxlisp/lang-native.go LangFuncDoc, LangConstDoc, LangTypeDoc")],
     TLA + "VxDoc draws packages with texts, parts and references and writes the page entry by entry; the real page is parsed and every entry, text and link compared, with all of the library's declarations beside it",
     "Six programs of 36 declarations and all declarations of the library, some 35000 links, per quick run; one program is compiled on the three targets with its texts. Blanks around a text and how a backslash is shown are not specified. " + TRUST)
