FM_NOTE = ("TLC explores FmtMC exhaustively (all histories of a few runs over two files, for every formatter keeping the obligations) and checks the "
           "laws of the relation on small programs. Generated programs in generated layouts, with comments in all places, are formatted by the real "
           "program; TLC decides whether each history is a behaviour of Fmt.tla. Formatted programs are also run, and their runs validated "
           "against Lang.tla. The options of -c are covered, .editorconfig (-e) is not. Runs as an unprivileged user in a scratch directory.")
FMF = ["src/lang/fmt.c", "src/lang/parser.c", "src/lang/lexer.c", "src/main.c"]
prop("P25", "Formatting keeps the program and its comments",
     "Whatever the layout and the options, a formatted program consists of the same statements, literally the same but for layout, optional "
     "commas and brackets and the order of plain names in files(), and keeps every comment with the statement it was in; it does the same "
     "when run. It is laid out as the options say (indentation, spaces, line length, commas), and formatting it again changes nothing.",
     ["inputs", "configurations"], "all programs in all layouts, all places of comments, all formatter options",
     "Tests format a few files with one layout each; comments in unusual places, long lines and unusual nesting are not among them.",
     FMF, [("layout", "src/lang/fmt.c: fmt_node, fmt_args, fmt_check, fmt_newline"),
           ("comments", "src/lang/parser.c: accept_comment_for, expr_tail_node; src/lang/fmt.c: fmt_comments"),
           ("optional brackets", "src/lang/fmt.c: fmt_node_wrapped, fmt_function")], FM_NOTE, TV,
     observe=["formatted text; result of running the formatted program"])
prop("P26", "The formatter changes only what it is told to",
     "muon fmt writes the formatted text to standard output and leaves all files alone; with -i it replaces exactly the named files by what it would have "
     "written; with -q it writes nothing and fails exactly if some file is not formatted. A file which cannot be parsed, read or written, or bad "
     "options, is an error, never changes a file, and is no obstacle to the state of the others.",
     ["histories", "faults"], "all histories of runs with all modes and options over several files, among them broken, missing and read-only ones",
     "Tests only compare the output for single good files.",
     FMF, [("modes", "src/main.c: cmd_format"), ("configuration", "src/lang/fmt.c: fmt_cfg_parse_cb, fmt")], FM_NOTE, TV,
     observe=["standard output, exit status, contents of all files after every run"])
