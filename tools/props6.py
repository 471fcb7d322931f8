CU_NOTE = ("TLC explores CustomMC exhaustively (all histories of edits, removals, changed declarations, failing and successful builds of "
           "small projects). Generated projects with custom targets, generators, run targets and aliases (odd names and arguments, "
           "subdirectories, a subproject) are set up and built by the real program; every command is a helper which records its "
           "arguments, environment, input and the files it reads, and the record has to be a behaviour of Custom.tla. Runs as an "
           "unprivileged user in a scratch directory. Rejections are only reported when they repeat.")
CUF = ["src/functions/kernel/custom_target.c", "src/functions/generator.c", "src/functions/string.c", "src/functions/environment.c",
       "src/backend/ninja/custom_target.c", "src/backend/ninja/alias_target.c", "src/args.c", "src/platform/posix/path.c", "src/main.c"]
prop("P20", "Custom commands get exactly the declared arguments and environment",
     "The command of a custom target, generator or run target is started in the build directory with exactly the declared arguments, "
     "byte for byte whatever characters they contain, with @INPUT@, @OUTPUT@ and the other placeholders replaced by the paths they stand "
     "for, with the declared environment applied to the outer one, and with its input and output connected if feed or capture is set. "
     "It runs after everything it refers to is built. Declarations whose placeholders stand for nothing, or which capture or feed "
     "several files, fail the setup.",
     ["inputs", "programs"], "all declarations of custom targets, generators, run targets and aliases, with any names and arguments",
     "Tests use a few plain commands; quoting passes through three layers (the shell, the build file, the exe wrapper), each "
     "with characters of its own.",
     CUF, [("substitution", "src/functions/kernel/custom_target.c: process_custom_target_commandline, src/functions/string.c: string_format"),
           ("quoting", "src/platform/posix/path.c: shell_escape, src/args.c: join_args_ninja, join_args_shell"),
           ("wrapper", "src/main.c: cmd_exe, src/backend/ninja/custom_target.c: ninja_write_custom_tgt"),
           ("environment", "src/functions/environment.c")], CU_NOTE, TV,
     observe=["arguments, environment, standard input and files read, as recorded by each command; files written; exit status of setup"])
prop("P21", "Custom commands run again exactly when something they depend on changed",
     "In every history of edits, removed outputs, changed declarations, failing commands and builds, a successful build leaves each requested "
     "output as building from nothing would: a command runs again if a file it depends on (inputs, programs, depend_files, files from its "
     "depfile), its arguments or its environment changed, or an output is missing. Nothing else runs, but targets which are always stale. "
     "Changed build definitions are noticed by the next build, and targets, outputs and aliases can be asked for by name.",
     ["histories", "programs"], "all histories of edits and builds of all such projects",
     "Tests build once from nothing.",
     CUF + ["src/backend/ninja.c", "src/backend/ninja/rules.c"],
     [("dependencies", "src/functions/kernel/custom_target.c: make_custom_target"),
      ("data files", "src/backend/ninja/custom_target.c: write_custom_target_dat"),
      ("regeneration", "src/backend/ninja/rules.c: ninja_write_rules")], CU_NOTE, TV,
     observe=["which commands run in each build and what they see; contents of outputs"])
