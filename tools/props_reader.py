READ = ["src/vxlisp/textblock.go", "src/vxlisp/value.go", "src/vxlisp/func.go", "src/vxlisp/arg.go", "src/vxlisp/package.go", "src/vxlisp/project.go"]

prop("P01", "Layout and comments never change a program; texts are exactly what is written",
     "Source may be laid out with any blanks, tabs, line ends and line or block comments between its tokens, in project files, package headers and declarations alike, and means the same. "
     "What stands between quotes or backquotes is the text a program gets, including delimiters, comment marks and line ends, with its escapes resolved and the indentation below an opening quote taken off.",
     ["inputs", "programs"],
     "every sequence of tokens, every gap between any two of them, every text",
     "The tests read a handful of fixed snippets in one style; a comment or line end at another place, or a text holding delimiters, is not tried.",
     READ + ["src/vxlisp/lang-native.go", "src/vxlisp/lang-cpp.go"],
     [("reader", "src/vxlisp/textblock.go TextblockParse"), ("words and texts", "src/vxlisp/value.go ValueFromTextblock"),
      ("texts in generated code", "src/vxlisp/lang-native.go LangNativeFromText, src/vxlisp/lang-cpp.go CppFromText")],
     TLA + "a reader and a writer of documents (VxReader); every gap at every place, every text, simulated layouts, compiled and compared",
     "All 755 single gaps of one form, all texts in both styles, simulated layouts of drawn forms, package headers and project files. " + TRUST)

prop("P02", "Malformed source is rejected, naming the file, and nothing is generated",
     "A source file with an unclosed, unopened or mismatched bracket, quote or comment, with items that are not set apart, or with anything but declarations and comments at its top level is rejected with an error that names the file, and the compiler ends without generating anything. "
     "A file that is still well formed after a change keeps the meaning of what is left.",
     ["inputs"],
     "every well-formed document and every loss, addition or exchange of a symbol in it, and every prefix of it",
     "The tests hold no malformed source at all.",
     READ + ["src/vxlisp/msg.go"],
     [("delimiters", "src/vxlisp/textblock.go TextblockParse"), ("end of file", "src/vxlisp/textblock.go TextblockParse"), ("stop on error", "src/vxlisp/project.go")],
     TLA + "the reader of VxReader judges every single damage of two documents and a header, and simulated damages; the compiler must agree",
     "About 1500 malformed documents per run, all single damages of the fixed ones; documents the specification calls unclear are not judged. " + TRUST)
