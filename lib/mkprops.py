#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one record per property)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None):
    a = {"files": files, "mechanism": mech}
    if state: a["state"] = state
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why, anchors=a))

prop("C01", "Check selection runs exactly the requested set of checks",
 "For every combination of level, list of names and the CLAZY_CHECKS environment variable, the checks that run are exactly the union of the requested checks, of the checks owning a requested fix-it and of the cumulative levels (level1 when nothing is requested, every non-manual check for all_checks), minus every check disabled with no-<name>, whatever the order and repetition of the items; they come in sorted order without duplicates. "
 "Unknown names, unknown levels and unknown names to disable are reported, each as what it is, and never change the rest of the selection; a selection in which nothing is recognised, or with superfluous arguments, is an error. The standalone tool selects as the plugin does for the same list.",
 ["configurations", "inputs"], "all lists over check names, fix-it names, levels, no- forms, unknown and malformed items, in every order and repetition, times the environment variable, times the front end",
 "The tests always pass one plain check name; lists, levels, disabling, environment and errors are never exercised, and the space of combinations is infinite.",
 ["src/checkmanager.cpp", "src/Clazy.cpp", "src/ClazyStandaloneMain.cpp", "src/Checks.h"],
 ["requested-check parsing, level filtering, environment merging, disabling and sorting"])

prop("C02", "clazy: comments suppress exactly the warnings they name",
 "A warning is suppressed by a source comment exactly when the file holding it has a 'clazy:skip' comment, or a 'clazy:excludeall=' comment naming its check anywhere in the file, or a 'clazy:exclude=' comment naming its check on its line, or a 'clazy:exclude-next-line=' comment naming its check on the line before. "
 "Nothing else suppresses it: not another check's name, another line, another file, a name that is a prefix or suffix of it, text outside a comment, or a string literal. It does not matter where in the file the comment stands, what precedes it on the line, or whether it is a // or a /* */ comment.",
 ["inputs", "programs"], "all source files, all placements and contents of suppression comments, all checks and all warning locations",
 "The tests hold a handful of files with one suppression each; the interaction of several comments, positions, files and checks is unbounded.",
 ["src/SuppressionManager.cpp", "src/checkbase.cpp"], ["comment scan per file, per-file suppression tables, lookup when a warning is emitted"])

prop("C03", "NOLINT comments suppress exactly what clang-tidy's grammar says",
 "In the plugin and the standalone tool, a NOLINT comment suppresses the clazy warnings of its line, NOLINTNEXTLINE those of the next line, and a NOLINTBEGIN with the nested NOLINTEND that has the same list those from the line of the first to the line of the second; without a parenthesised list all of them, with a list exactly the warnings whose clazy-<name> matches an entry (where * matches any text). "
 "Every entry of a list counts and every warning on the line is treated alike, however many there are; a list naming only other tools' checks suppresses nothing, and a comment for one line or one check has no influence on others.",
 ["inputs", "programs"], "all files, all combinations of NOLINT comments, lists, wildcards, ranges and warning positions",
 "The tests have one file with a few one-warning-per-line examples; lists, several warnings per line, and combinations of kinds are not reached.",
 ["src/SuppressionManager.cpp", "src/SuppressionManager.h", "src/checkbase.cpp"], ["NOLINT parsing into line tables, wildcard and range tables; lookup per warning"])

prop("C04", "Header filter, ignored directories and the main file",
 "A warning is reported exactly when its file is the file given for compilation or its path matches the header filter (with no header filter every file is in), and its path does not match the ignored-directories expression; files of system headers are never reported. "
 "This holds for the plugin's environment variables and for the standalone tool's options alike, option and variable having the same meaning, and for every way a path can be spelled.",
 ["configurations", "inputs"], "all file layouts, spellings, filters, ignore expressions and front ends",
 "The tests run with one header filter value; the cross product of filters, files and front ends is not covered.",
 ["src/ClazyContext.cpp", "src/ClazyContext.h", "src/checkbase.cpp", "src/Clazy.cpp", "src/ClazyStandaloneMain.cpp"], ["regular expressions matched against the file of a warning's location"])

prop("C05", "Line filter reports exactly the listed lines",
 "With a line filter, a warning is reported exactly when its file name ends with the name of a filter entry and its line lies in one of that entry's inclusive ranges or that entry has no ranges, whatever the other entries say; without a line filter all lines are reported. "
 "File and line are those displayed with the warning. A filter that is no JSON list is reported as invalid and hides nothing.",
 ["configurations", "inputs"], "all lists of entries and ranges, all files and lines",
 "Only one or two hand-written filters are tested.",
 ["src/ClazyContext.cpp", "src/ClazyStandaloneMain.cpp", "src/checkbase.cpp"], ["line filter parsed from JSON and tested per location"])

prop("C06", "Warnings are promoted to errors exactly when asked",
 "A clazy diagnostic is an error exactly when its check is listed in CLAZY_CHECKS_AS_ERRORS, or -Werror is in force and CLAZY_NO_WERROR is not set; otherwise it is a warning (with several -Werror and -Wno-error the last wins), and it is always tagged with the check that produced it. "
 "The promotion of one check never changes the severity, number or text of another's diagnostics, and the compilation fails exactly when an error was reported. An unknown name in the list is reported as invalid and promotes nothing.",
 ["configurations"], "all combinations of the two variables, -Werror, checks and front ends",
 "No test sets either variable together with -Werror or several checks.",
 ["src/checkbase.cpp", "src/ClazyContext.cpp", "src/Clazy.cpp"], ["severity decision at emission"])

prop("C07", "only-qt limits analysis to Qt translation units",
 "With only-qt, a translation unit is analysed exactly when its command line leaves QT_CORE_LIB defined (with or without a value), and every file is analysed without the option; the decision for one translation unit never depends on any other analysed in the same run. "
 "Analysed units give the same warnings as without the option, the others none, found while preprocessing or later.",
 ["configurations", "histories"], "all sequences of translation units with and without the definition, in every order, all front ends",
 "Tests only run a single file; histories over several units in one process never occur.",
 ["src/ClazyContext.h", "src/ClazyContext.cpp", "src/checkbase.cpp"], ["Qt detection from the preprocessor definitions"])

prop("C08", "Exported fix files hold exactly the reported diagnostics and their fixes",
 "Every warning that clazy reports in an exporting run, and no other of clazy's, appears exactly once for each time it is reported in the exported file with its check's name, message, file, offset and replacements, which are those shown by the compiler; suppressed ones never do. "
 "The plugin writes one file per translation unit and the standalone tool one file for the whole run, in which the diagnostics of all translation units are present whatever happens to the others; without the option, or without warnings, no file is written.",
 ["histories", "configurations", "fault_sequences"], "all sequences of translation units, including failing ones, all severities, suppressions and checks",
 "Tests compare the fixed text of single files; several units, failures, severities and suppression are not combined.",
 ["src/FixItExporter.cpp", "src/ClazyContext.cpp", "src/Clazy.cpp", "src/ClazyStandaloneMain.cpp"], ["diagnostic consumer collecting diagnostics and serialising them at the end"])

prop("C09", "All front ends report the same warnings",
 "For every translation unit that compiles and every set of checks, the compiler plugin, the standalone tool and the clang-tidy module report the same warnings: same check, message, file, line and column, clang-tidy's own filters for headers being open. "
 "A check exists in one exactly when it exists in the others.",
 ["programs", "configurations"], "all programs, all checks, all front ends",
 "Each test compares each front end with one expected text per file, and many files are excluded for one of them; there is no direct comparison over checks and sources together.",
 ["src/Clazy.cpp", "src/ClazyStandaloneMain.cpp", "src/ClazyClangTidyModule.cpp", "src/ClazyVisitHelper.cpp"], ["the three traversals over declarations and statements and their shared emission"])

prop("C10", "Where code lives decides whether it is analysed",
 "Code from system headers (including what they include, and files that declare themselves one) is never reported; code in user headers is reported by default as if it stood in the main file, and with ignore-included-files it is not reported while the main file's warnings stay the same. "
 "Generated resource and qmlcache main files yield no warning, and template instantiations and implicit code are reported at most as often as their written code.",
 ["programs", "configurations"], "all layouts of main file, user header and system header, all checks, both settings",
 "The tests hold nearly all code in the main file.",
 ["src/ClazyVisitHelper.cpp", "src/Clazy.cpp", "src/ClazyStandaloneMain.cpp", "src/checkbase.cpp"], ["location tests before a visited node is handed to a check"])

prop("C11", "Warnings inside macro expansions point at the use, once",
 "A warning for code that stands in a macro's body is reported where the outermost macro is used (for a use inside a macro's argument, where its text stands), at most once per check and use; code in a macro's argument is reported where it is written, as if the macro were not there. "
 "A fix-it, shown or exported, never changes the definition of a macro, and code that is not from a macro is never affected.",
 ["programs"], "all nestings of macro definitions, arguments and uses, all checks",
 "Only a few checks have a macro test.",
 ["src/checkbase.cpp"], ["location mapping and per-location deduplication at emission"])

prop("C12", "Signals, slots and invokables are classified as moc does",
 "In every class body moc accepts, a method counts as signal, slot or invokable exactly when moc lists it so: by the section it is declared in (the last specifier before it in its own class, whatever classes are nested or local in between), or by its own Q_SIGNAL, Q_SLOT, Q_INVOKABLE or Q_SCRIPTABLE mark, wherever that stands before its name. Only a Q_INVOKABLE method inside a section counts as invokable, not as the section's signal or slot. Keywords, Q_ macros and QT_NO_KEYWORDS builds are equivalent. "
 "The checks that depend on it (fully-qualified-moc-types, const-signal-or-slot, virtual-signal, overridden-signal, signal-with-return-value, connect-by-name, connect-non-signal, incorrect-emit, thread-with-slots) report accordingly.",
 ["programs"], "all sequences of section specifiers, declarations, marks, nested and local classes, in one or several files",
 "Tests contain a handful of class layouts.",
 ["src/AccessSpecifierManager.cpp", "src/AccessSpecifierManager.h", "src/checks/level1/const-signal-or-slot.cpp", "src/checks/level0/connect-non-signal.cpp", "src/checks/level1/incorrect-emit.cpp", "src/checks/level1/virtual-signal.cpp", "src/checks/level1/overridden-signal.cpp"], ["section table per class built from preprocessor callbacks and merged with clang's access specifiers"])

prop("C13", "Signature normalization agrees with Qt's own",
 "A signature in SIGNAL(), SLOT() or METHOD() (a literal given to qFlagLocation), standing in a connect call with no other call around it, is reported as not normalized exactly when Qt 5's QMetaObject::normalizedSignature changes it, and the suggested replacement is exactly the text Qt's normalization gives. The same holds for the type names in Q_ARG and Q_RETURN_ARG with QMetaObject::normalizedType. Nothing else is reported: not disconnect, nor other functions. ",
 ["inputs"], "all signatures: nested templates, const, references, pointers, unsigned forms, spacing, and texts that are no signature",
 "Tests list some thirty signatures of an infinite language.",
 ["src/checks/level0/connect-not-normalized.cpp", "src/NormalizedSignatureUtils.h"], ["normalization routine over the signature text"])

prop("C14", "A translation unit's result does not depend on the others analysed with it",
 "In one run of the standalone tool or of clang-tidy over several translation units, the warnings reported for each unit are exactly those it gets when analysed alone, for every order and repetition of units and whatever failed in between.",
 ["histories"], "all sequences of translation units, including failing and repeated ones, and all checks",
 "Tests run one unit per process.",
 ["src/ClazyContext.cpp", "src/ClazyStandaloneMain.cpp", "src/SuppressionManager.cpp", "src/Utils.cpp", "src/QtUtils.cpp"], ["per-unit context; static caches"])

prop("C15", "Checks are independent of each other and runs are repeatable",
 "The warnings of a set of checks run together are exactly the union of the warnings each gives when run alone, in whatever order they were requested, and two runs of the same command give identical output.",
 ["configurations", "programs"], "all sets of checks, all programs",
 "Tests run one check at a time.",
 ["src/checkmanager.cpp", "src/checkbase.cpp", "src/ClazyContext.cpp", "src/Clazy.cpp", "src/ClazyVisitHelper.cpp"], ["shared context and traversal"])

prop("C16", "Listings, metadata, documentation and registry agree with what runs",
 "The checks, their levels (0, 1, 2 or manual) and their fix-its that checks.json names are the same in every place that lists them: the standalone tool's JSON output, the plugin's help (which leaves out the manual checks), the README's list of checks and its per-level lists for clang-tidy, clang-tidy --list-checks, the pages under docs/checks (one per check, titled with its name, not empty), the installed documentation with its level directories, and `clazy --list` and `clazy --explain` of an installed tree. Every listing names each check once. They are what selection uses: -list-checks prints, and the plugin, the standalone tool and clang-tidy run, exactly the checks of the requested level and the levels below it, of the requested names and of the checks owning the requested fix-its, without those asked for with no-; without a request, those of level1. Manual checks belong to no level. Every check reports something about some code, and the checks that propose replacements are exactly those with declared fix-its.",
 ["configurations"], "all checks, all listings, all requests",
 "No test compares the listings with each other, and tests enable every check by its own name.",
 ["src/Checks.h", "src/checkmanager.cpp", "src/ClazyStandaloneMain.cpp", "src/ClazyClangTidyModule.cpp", "checks.json", "src/Clazy.cpp", "src/checks.json.h.in", "clazy.cmake", "README.md", "docs/checks"], ["registration and its listings"])

prop("C17", "Applied fix-its give code that compiles and no longer triggers",
 "The fix-its of a check change only the construct its warning is about (and add the include, using-directive or .moc line they need): they turn it into the text the check stands for, whatever the operand is (parenthesised, dereferenced, a member, a call, a conditional, from a macro or its argument, in a template, lambda or class), and don't touch macro definitions. "
 "Applied to code that compiles with Qt 5 or Qt 6 they give code that compiles; a second run proposes none of the applied ones again (except where one rule leads to the next), and all those that were not applied. Code that the rule is not about, or whose warning is suppressed, gets no fix-it.",
 ["programs"], "all programs and all checks with fix-its",
 "Tests compare the fixed text of fixed programs, and never re-run on it or compile it.",
 ["src/FixItUtils.cpp", "src/FixItExporter.cpp", "src/checks"], ["replacement ranges computed from source locations"])

prop("C18", "The clazy wrapper passes every compilation through unchanged",
 "The clazy command runs the compiler (CLANGXX, or clang++) once, with the options that load and add the plugin, then those of the wrapper's own --qtdeveloper and --visit-implicit-code (leading arguments, in any order and number), then exactly the caller's other arguments, in order and unaltered, with the same environment and input; it returns the compiler's exit status. The plugin's folder precedes the caller's library path, to which nothing else is added. "
 "With --standalone as the next word it runs clazy-standalone in the same way. --help, --version, --list and --explain as first argument give their text and run no compilation. It never reports success without having run what it was asked to: with jni-signatures enabled and no ANDROID_NDK it fails. It works from any folder, one with blanks in its name included.",
 ["inputs", "configurations"], "all argument vectors, including blanks and shell metacharacters, and all environments",
 "There is no test of argument passing.",
 ["clazy.cmake"], ["the generated shell script"])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            p["statement"] = p["statement"].strip()
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    print(len(P), "properties")
