IN_NOTE = ("TLC explores InstallMC exhaustively (histories of installing, dry runs, removals and obstacles over small sets of "
           "declarations); generated projects with install declarations of every kind, subdirectories and subprojects are set up, built "
           "and installed by the real program, and the file system before and after every step (types, contents, modes, link targets) "
           "has to be a behaviour of Install.tla. Runs as an unprivileged user; prefixes and destination directories are inside the scratch "
           "directory. Rejections are only reported when they repeat.")
INF = ["src/install.c", "src/cmd_install.c", "src/functions/kernel/install.c", "src/functions/kernel/build_target.c",
       "src/functions/kernel/custom_target.c", "src/functions/kernel/configure_file.c", "src/platform/posix/filesystem.c"]
prop("P18", "muon install creates exactly what the project declares",
     "After a successful `muon install` every file, directory, link and library alias the project and its subprojects declare exists "
     "below DESTDIR and the prefix at the declared place, with the declared (or else derived) mode and the source's content, and "
     "nothing else outside the build directory has changed. Targets which are not to be installed are not, excluded files and "
     "directories are left out, and invalid declarations (modes, man pages, counts of names) fail the setup.",
     ["inputs", "programs"], "all sets of install declarations, prefixes and destination directories",
     "Tests install a few projects and compare a list of names; kinds of declarations, modes, DESTDIR and subprojects multiply.",
     INF, [("declarations", "src/functions/kernel/install.c, src/install.c: push_install_target"), ("copying", "src/cmd_install.c: install_iter"),
           ("modes", "src/install.c: install_mode parsing, src/platform/posix/filesystem.c: fs_chmod")], IN_NOTE, TV,
     observe=["file system before and after muon install"])
prop("P19", "Installing again, failures, dry runs and install scripts",
     "`muon install` can be repeated and replaces what an earlier one left, following no link out of the destination; it fails, and "
     "says so with its exit status, if anything could not be installed or a script failed. A dry run changes nothing. Install "
     "scripts run once each, in order, after everything is installed, with the documented environment, except those which are to be "
     "skipped.",
     ["histories", "faults"], "all histories of installs, dry runs, removals, edits and obstacles in the destination",
     "No test installs twice, or over obstacles.",
     INF, [("installation", "src/cmd_install.c: install_iter, install_run"), ("scripts", "src/cmd_install.c: install_scripts_iter"),
           ("replacement", "src/platform/posix/filesystem.c: fs_copy_file, fs_make_symlink")], IN_NOTE, TV,
     observe=["file system before and after every muon install; environment recorded by scripts; exit status"])
