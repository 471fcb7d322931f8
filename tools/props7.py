TG_NOTE = ("TLC explores TargetsMC exhaustively (all projects of a few declarations over two projects, and all orders of building them). "
           "Generated projects (a root, a subdirectory, a subproject; libraries of every kind, executables, dependency objects, generated "
           "sources, arguments, options, invalid declarations) are set up and built by the real program with a compiler, archiver and linker "
           "that record how they are called; setup and calls have to be a behaviour of Targets.tla. gcc-like tools on Linux only. Runs as an "
           "unprivileged user in a scratch directory. Rejections are only reported when they repeat.")
TGF = ["src/functions/kernel/build_target.c", "src/functions/build_target.c", "src/functions/both_libs.c", "src/functions/kernel/dependency.c",
       "src/functions/dependency.c", "src/functions/kernel.c", "src/backend/common_args.c", "src/backend/ninja/build_target.c", "src/backend/ninja.c",
       "src/compilers.c"]
prop("P22", "Every source is compiled exactly with what the declarations say",
     "Each source of each target is compiled once, into an object of its own, with the arguments of its target, its dependencies, its project "
     "and all projects, in that order; with the include directories of the target and its dependencies, in order and as system directories if "
     "so declared; and with the flags its options (its own, else the project's) stand for. Generated headers it may include are made before. "
     "Nothing else is passed: no argument reaches another target, project or language.",
     ["programs", "configurations"], "all projects of targets, dependencies, include directories and arguments, in several projects, and all options",
     "Tests compile a few projects and see whether they compile: a missing, misplaced or leaked argument mostly goes unnoticed.",
     TGF, [("arguments", "src/backend/common_args.c: setup_compiler_args"), ("options", "src/backend/common_args.c: get_buildtype_args, get_option_compile_args"),
           ("dependencies", "src/functions/kernel/dependency.c: dep_process_deps, build_dep_init"),
           ("objects", "src/functions/build_target.c: tgt_src_to_object_path")], TG_NOTE, TV,
     observe=["arguments of every compiler call; exit status of setup and build"])
prop("P23", "Every target is linked with all it needs, however indirect",
     "A target is made from exactly the objects of its own sources, of those it takes over from others, and of its dependencies. An executable or shared library is "
     "linked with every library it or its dependencies link with and, through static libraries however deep, all that those need; link_whole "
     "libraries are taken whole; link arguments come along. It is linked by the linker of its most demanding language after everything it is "
     "linked from was made.",
     ["programs", "schedules"], "all graphs of static, shared and both-libraries, dependencies and executables, and all orders of building",
     "Tests have a few shallow graphs; the closure of link_with, link_whole, dependencies and partial dependencies is over all graphs.",
     TGF, [("closure", "src/functions/kernel/dependency.c: dep_process_link_with, dep_process_link_whole"),
           ("linker", "src/functions/kernel/build_target.c: determine_linker, src/functions/build_target.c"),
           ("link line", "src/backend/ninja/build_target.c: ninja_write_build_tgt, src/backend/common_args.c: setup_linker_args")], TG_NOTE, TV,
     observe=["arguments of every linker and archiver call, and which of its inputs exist"])
prop("P24", "Default targets are built, under the declared names",
     "A build without arguments makes every target which is built by default and all that those need, and no object nothing needs; a target with build_by_default: false "
     "is not made unless something needs it. Outputs are called after the declared name, prefix, suffix, version and soversion, in the build "
     "directory of the declaring directory, and a versioned library gets its soname and links. No two outputs collide, whatever the names of "
     "targets, sources and directories.",
     ["programs"], "all projects and all names of targets, sources, directories, versions",
     "Tests use plain names and build everything.",
     TGF, [("names", "src/functions/kernel/build_target.c: determine_target_build_name, setup_soname, setup_shared_object_symlinks"),
           ("defaults", "src/backend/ninja.c, src/backend/ninja/build_target.c"),
           ("object paths", "src/functions/build_target.c: tgt_src_to_object_path")], TG_NOTE, TV,
     observe=["outputs of every tool, names of files and links in the build directory"])
