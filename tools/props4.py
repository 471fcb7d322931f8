OP_NOTE = ("TLC explores OptionsMC exhaustively (all orders and sources of settings over small sets of projects and options); "
           "generated projects with option files, subprojects, command lines and environments are set up by the real program, and "
           "every recorded configuration has to be a behaviour of Options.tla. Rejections are only reported when they repeat. "
           "Compiler detection does not take part: the projects have no languages.")
OPF = ["src/options.c", "src/functions/kernel/options.c", "src/functions/feature_opt.c", "src/functions/kernel/subproject.c"]
prop("P15", "Values of options: sources, precedence, validation",
     "get_option() returns in every project the value from the source that takes precedence (command line, subproject()'s "
     "default_options, project()'s default_options, the parent project for yielding options, the environment, the default), "
     "whatever the order in which the sources appear; deprecated options and values are replaced as declared, "
     "directories below the prefix are relative to it. A value which the option's type, choices or range does not "
     "admit, and a setting of an unknown option, is an error.",
     ["inputs", "programs"], "all option declarations, sets of projects, and settings from all sources",
     "The precedence rules combine half a dozen sources with yielding, renaming and subprojects; tests cover single cases.",
     OPF, [("sources", "src/options.c: set_option, option_value_source"), ("validation", "src/options.c: typecheck_opt, check_array_opt"),
           ("deprecation", "src/options.c: check_deprecated_option"), ("directories", "src/options.c: prefix_dir_opts")], OP_NOTE, TV,
     observe=["values printed by message() in every project; exit status and error messages"])
prop("P16", "Feature options",
     "The state of a feature option is its value, or that of auto_features if it is auto. enable_if, disable_if, require, "
     "enable_auto_if and disable_auto_if return what their documentation says for every state and condition without changing "
     "the option they are called on, and fail with their error_message exactly where they have to.",
     ["inputs", "programs"], "all states, values of auto_features, and chains of methods",
     "Chains of methods, auto_features and subprojects multiply; tests look at a few.",
     ["src/functions/feature_opt.c", "src/lang/object.c", "src/options.c"],
     [("methods", "src/functions/feature_opt.c"), ("auto_features", "src/lang/object.c: get_obj_feature_opt")], OP_NOTE, TV,
     observe=["states printed by message() in every project; exit status and error messages"])
prop("P17", "A build reconfigures exactly when it has to, with the settings it was made with",
     "Building regenerates the build files first if a file the configuration read (build and option files, files read by "
     "configure_file, fs.read, keyval, run_command or project(version:)) has changed since, and does not otherwise. The "
     "regenerated configuration is the one a fresh setup with the original options and environment gives, and a failed one "
     "leaves the build able to reconfigure again.",
     ["histories", "inputs"], "all histories of edits, builds and failing configurations, all values and paths including special characters",
     "No test edits the inputs of a configuration and builds again.",
     ["src/backend/ninja/rules.c", "src/backend/common_args.c", "src/lang/workspace.c", "src/lang/eval.c", "src/options.c"],
     [("dependencies", "src/lang/workspace.c: workspace_add_regenerate_deps"),
      ("command", "src/backend/common_args.c: regenerate_build_command"), ("rule", "src/backend/ninja/rules.c: ninja_write_rules")],
     OP_NOTE, TV, observe=["what the build prints and leaves in the build directory"])
