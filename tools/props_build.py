BUILD = ["src/vxlisp/project.go", "src/vxlisp/command.go", "src/vxlisp/file.go", "src/vxlisp/package.go", "src/vxlisp/lang.go",
         "src/vxlisp/lang-js.go", "src/vxlisp/lang-cpp.go", "src/vxlisp/doc.go", "src/vxlisp/msg.go"]

prop("P03", "Packages may use each other in any order but never in a circle",
     "A project whose packages use each other without a circle compiles whatever its files are called and in whatever order they are found, and a name taken from a library means the one that library declares. "
     "Packages that use each other in a circle, a package that uses itself and a library that does not exist are rejected with an error naming the packages concerned.",
     ["programs", "configurations"],
     "every graph of uses on any number of packages, every naming of their files",
     "The tests hold one fixed set of packages, found in an order that already suits their dependencies, and no circle.",
     ["src/vxlisp/package.go", "src/vxlisp/project.go", "src/vxlisp/library.go", "src/vxlisp/scope.go"],
     [("order of packages", "src/vxlisp/package.go ListPackageSortDependencies"), ("libraries exist", "src/vxlisp/package.go ListPackageValidateLibraries"),
      ("names from libraries", "src/vxlisp/scope.go")],
     TLA + "VxDeps orders packages in rounds, proves the order equal to the absence of circles, and gives the value every package computes; all graphs on three packages and simulated larger ones are compiled",
     "Exhaustive on three packages (512 graphs and all lost libraries; those with self-use sampled in the quick tier), simulated on six. Java packages with the same last name are a known finding. " + TRUST)

prop("P04", "Nothing is written when anything is wrong",
     "When a source file of a project, its project file or a requested command is in error (unreadable text, unknown or ill-typed names and calls, a missing or circular library, an unknown command, a command without a known code, language or main function), the run reports an error and creates, changes and removes no output file, not even for the commands and packages that are sound. "
     "Once the error is mended the next run generates everything that was asked for.",
     ["histories", "inputs"],
     "every history of edits, errors and runs; every kind of error at every place; every combination of requested commands",
     "The tests never run the compiler on a project with an error, nor twice on one output folder.",
     BUILD + ["src/vxlisp/value.go", "src/vxlisp/func.go"],
     [("stages stop on error", "src/vxlisp/project.go ProjectReadFromPath"), ("commands are validated first", "src/vxlisp/project.go ExecuteProjectFromArgs, src/vxlisp/command.go")],
     TLA + "VxBuild says after every step of a history which files lie under the outputs; all single errors and simulated histories are carried out on real files",
     "Exhaustive over one error at a time (13 kinds in each of three packages, 4 project errors, 5 bad commands in four positions) after a finished build, plus simulated histories. " + TRUST,
     state=[{"name": "project", "meaning": "sources, project file and output folders across a history of runs", "where": "src/vxlisp/project.go"}])

prop("P05", "Generated files depend on their sources alone",
     "Running the same command on the same sources gives the same files, byte for byte, whatever was generated before, wherever the project lies, from where and in which order commands are run, and however often. "
     "Changing the inside of one package changes the generated file of that package and of no other.",
     ["histories", "configurations"],
     "every history of edits and runs, every place and working folder, every command",
     "The tests generate once, from one place, and compare with nothing.",
     BUILD,
     [("generation", "src/vxlisp/lang.go LangFilesFromProjectCmd, src/vxlisp/lang-js.go JsFilesFromProjectCmd, src/vxlisp/lang-cpp.go CppFilesFromProjectCmd, src/vxlisp/doc.go"), ("writing", "src/vxlisp/file.go WriteListFile")],
     TLA + "VxBuild gives every output file a token of exactly what it may depend on; simulated histories are carried out and equal tokens must be equal bytes, other versions other bytes",
     "Six runs per history over sixteen commands (JavaScript, Java, C++, C# and Kotlin sources, tests and the documentation page). Swift generation is not included (known finding). " + TRUST,
     state=[{"name": "outputs", "meaning": "the version of every source and the content of every output file", "where": "src/vxlisp/file.go"}])

prop("P06", "A run carries out exactly the commands it is asked for",
     "A run carries out every command of each requested name, wherever the project path stands among the arguments, into the folder the command names directly or through a path alias. "
     "It brings every file of these commands up to date, even one that was altered, emptied or deleted, leaves files that are already right untouched, and neither changes nor removes anything else.",
     ["histories", "configurations"],
     "every list of commands, every form of the command line, every state of the output folders",
     "The tests call the generators directly; no test passes arguments, repeats a run, or finds outputs in another state than absent.",
     BUILD,
     [("arguments", "src/vxlisp/project.go ExecuteProjectFromArgs"), ("commands by name", "src/vxlisp/command.go ListCommandFromProject"),
      ("paths", "src/vxlisp/project.go StringPathFromProjectCmd, src/vxlisp/file.go PathFromPathRelativePath"), ("writing", "src/vxlisp/file.go WriteListFile")],
     TLA + "VxBuild says which files a run writes, which it leaves and what lies there afterwards; simulated histories with meddled outputs are carried out on real files",
     "Contents, presence and modification times of every file below the outputs and of the sources are compared after every run. Copied test data is not compared. " + TRUST,
     state=[{"name": "outputs", "meaning": "output folders across a history of runs", "where": "src/vxlisp/file.go"}])
