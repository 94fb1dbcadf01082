APPL = "lib/app/src/"
INF = "lib/infra/src/"
CMD = "cmd/pen/src/"
TOOL = TRUST + "The tool is the real one up to the code generator, which cannot be built here; turtle, which decides by contents what is up to date and never loses track itself, LLVM's programs, cp, git, cargo, and link and foreign-code scripts are small stand-ins that work on simulated files and fail as real ones do. A kill is the end of a process or of all of them; power failures are not modelled. The tool is a single user's: two commands at once in one package are not covered. "
prop("B01", "An incremental build makes what a build from nothing makes",
 "However a package is edited between commands - modules, imports, exports, foreign code, dependencies, its kind, deletions and mistakes - and however often, and wherever, commands before failed or were interrupted, a pen build that succeeds leaves exactly the application or library that a build of the same sources from nothing would: nothing in it is stale, left over or missing. It succeeds if the package is valid and nothing goes wrong, and fails if the package is not valid or anything it needed failed. Builds that change nothing keep doing so.",
 ["histories", "crash_points", "schedules"], "every history of edits, builds, failures and kills, and every order in which independent commands run",
 "Staleness needs a particular edit after a particular state of the output directory, often one that a failure or a kill left; tests build once from nothing.",
 [APPL+"package_build_script_compiler.rs", APPL+"module_dependency_resolver.rs", APPL+"module_compiler.rs", INF+"ninja_build_script_compiler.rs", INF+"ninja_build_script_dependency_compiler.rs", INF+"ninja_build_script_runner.rs", INF+"command_runner.rs", CMD+"package_builder.rs"],
 [("build scripts with modules' dependencies", INF+"ninja_build_script_compiler.rs"), ("dependencies of modules", APPL+"module_dependency_resolver.rs"), ("failures of commands", INF+"command_runner.rs")],
 ["the application or archive a build leaves", "exit statuses"], TOOL,
 [("output directory", "objects, interfaces, dependencies, packages and archives of earlier builds", CMD+"package_builder.rs")])
prop("B02", "Dependencies are fetched whole and built once each, in order",
 "Every package that a package depends on, directly or through others, is fetched from its own URL, whatever kind and however similar to others', and is there either as a whole or not at all, however fetching fails or is interrupted; a later command fetches what is not there. An application links each of them exactly once, and it links whatever the shape of the graph. Packages that depend on each other in a cycle, and packages that do not exist, are reported as errors.",
 ["histories", "crash_points", "inputs"], "every graph of packages, every kind of URL, and every failure or kill while packages are fetched and built",
 "Half-fetched packages need a failure in the middle of a copy; orders of linking and clashing names need particular graphs and URLs.",
 [APPL+"package_initializer/external_package_initializer.rs", INF+"external_package_initializer.rs", APPL+"external_package_configuration_reader.rs", APPL+"external_package_topological_sorter.rs", APPL+"common/package_id_calculator.rs", APPL+"system_package_finder.rs"],
 [("fetching", INF+"external_package_initializer.rs"), ("order of packages", APPL+"external_package_topological_sorter.rs"), ("directories of packages", APPL+"common/package_id_calculator.rs")],
 ["fetched packages", "linked applications", "exit statuses"], TOOL)
prop("B03", "Formatting a package never loses a source",
 "Whatever fails or is interrupted while pen format runs, each module and test module of the package holds at any time either all of what it held before or all of what pen format --stdin makes of that, and other files, hidden ones included, are untouched. If pen format succeeds, every module is formatted; it fails if one does not parse. pen format --check changes nothing and succeeds exactly if every module and test module is formatted.",
 ["crash_points", "histories", "inputs"], "every package, every failure of the disk and every point at which the command is killed",
 "A source is lost only if the disk fills up, or the tool is killed, between truncating a file and writing it.",
 [APPL+"package_formatter.rs", APPL+"package_format_checker.rs", INF+"file_system.rs", APPL+"file_finder.rs", CMD+"package_formatter.rs"],
 [("writing of files", INF+"file_system.rs"), ("finding of modules", APPL+"file_finder.rs")],
 ["files of the package", "exit statuses"], TOOL + "What formatting does to a text is not judged (see N01). ")
prop("B04", "pen test runs exactly the tests there are and reports honestly",
 "A pen test that gets as far as running tests runs the test program once, with exactly the tests in the package's test modules at that time and the code of its modules as they are, whatever was edited since and whatever failed or was interrupted before. It succeeds only if that program succeeded, and, if nothing goes wrong, whenever the package and its tests are valid and they pass; tests that cannot be built are an error. Running tests and building the package by turns does not disturb either.",
 ["histories", "crash_points"], "every history of edits of modules and tests, of builds and test runs, of failures and kills",
 "Stale or missing tests need an edit after a particular earlier state, and broken crates of test programs an interruption between two copies.",
 [APPL+"test_runner.rs", APPL+"package_test_builder.rs", APPL+"package_test_information_compiler.rs", INF+"test_linker.rs", APPL+"package_build_script_compiler.rs", APPL+"test_module_finder.rs", CMD+"test_runner.rs"],
 [("linking of test programs", INF+"test_linker.rs"), ("collection of tests", APPL+"package_test_information_compiler.rs")],
 ["test programs that run, and the tests in them", "exit statuses"], TOOL)
prop("B05", "Commands that write a result succeed only if it is complete",
 "pen format --stdin and pen document succeed only if all of their output has been written: all of the formatted text, or the documentation of all modules, however the input arrives in pieces and the output or the disk fails. pen create succeeds only if all files of the new package are there, which then builds and is formatted; after a failure or an interruption it can be run again.",
 ["crash_points", "inputs"], "every input and package, and every failure of input, output or disk at any point",
 "Results are cut short only when an output or a disk fails in the middle.",
 [CMD+"module_formatter.rs", CMD+"package_documentation_generator.rs", CMD+"package_creator.rs", APPL+"package_creator.rs", APPL+"package_documentation_generator.rs", INF+"json_package_configuration_writer.rs"],
 [("output of formatted modules", CMD+"module_formatter.rs"), ("creation of packages", APPL+"package_creator.rs")],
 ["standard output", "files of new packages", "exit statuses"], TOOL + "What the documentation says of a module is not judged (see N05). ")
