"""What is checked: properties, harnesses and bounds. tools/gen.py derives properties.jsonl and MANIFEST.json."""
def R(crate, entry, bound="", covers=(), quick=None, thorough=None, **k):
    return dict(crate=crate, entry=entry, bound=bound, covers=list(covers), quick=quick or {}, thorough=thorough or {}, **k)
PROPS = {}
NOT_APPLICABLE = {}
def P(id, title, statement, quant, why, files, mech, runs, over=("inputs",), outside="", assumptions=(), **k):
    PROPS[id] = dict(title=title, statement=statement, over=list(over), quant=quant, why=why, files=files, mech=mech, runs=runs, outside=outside, assumptions=list(assumptions), **k)
def NA(id, title, statement, quant, why, files, mech, reason, over=("inputs",)):
    NOT_APPLICABLE[id] = dict(title=title, statement=statement, over=list(over), quant=quant, why=why, files=files, mech=mech, reason=reason)

VER = "crates/rez-next-version/src/version.rs"
RNG = "crates/rez-next-version/src/range/"
# ---------------------------------------------------------------- versions
P("C01", "Version parsing accepts exactly well-formed text and preserves it",
  "A text is accepted as a version exactly when it is well formed: alphanumeric/underscore tokens joined by single '.', '-' or '+', at most 10 tokens and 5 numeric tokens, no leading 'v', no token starting or ending with '_', no purely alphabetic token over 10 letters, not the reserved words; or the empty, 'inf' or 'epsilon' version. An accepted version prints exactly its (trimmed) text, has as many tokens as the text, and re-parses to an equal version; nothing panics.",
  "all texts (any length, any characters)", "Tests try a few dozen literals; acceptance depends on every character combination and on token-count limits.",
  [VER], [("Version::parse / parse_internal_gil_free", VER)],
  [R("ver", "h_parse_ascii", "any ASCII text of 0..{p0} bytes", ["accepted", "rejected"], dict(p0=4), dict(p0=5)),
   R("ver", "h_parse_chars", "any text of {p0} version characters", ["accepted", "rejected"], dict(p0=6), dict(p0=7)),
   R("ver", "h_parse_long", "4..11 one-character tokens (token and numeric-token limits)", ["accepted", "rejected"]),
   R("ver", "h_parse_words", "reserved and over-long words with one symbolic character replaced or inserted", ["accepted", "rejected"]),
   R("ver", "h_parse_utf8", "one arbitrary two-byte UTF-8 character between up to 2+2 version characters", ["utf8"])],
  outside="longer unstructured text; three- and four-byte UTF-8")
P("C02", "Version comparison is the documented rez order, and all operators agree",
  "Versions compare token by token: numbers by value whatever their size, words alphabetically, a word below a number, mixed tokens run by run; when one version extends the other the shorter is greater, unless the extra tokens are all '0' (then equal); epsilon is below and inf above everything. Equality, <, <=, >, >= and the total comparison agree with each other, and swapping the operands reverses the result.",
  "all pairs of versions", "Tests compare hand-picked pairs; an ordering error needs a particular mix of digits, letters, lengths or magnitudes.",
  [VER], [("Ord/PartialOrd/PartialEq for Version", VER), ("compare_token_strings, compare_single_token", VER)],
  [R("ver", "h_cmp", "any two versions of 1..{p0} and 1..{p1} characters", ["less", "equal", "greater"], dict(p0=3, p1=3), dict(p0=4, p1=4)),
   R("ver", "h_cmp_shapes", "pairs of longer shapes, digits and letters symbolic", ["less", "equal", "greater"]),
   R("ver", "h_cmp_bignum", "numeric tokens of 17..22 digits (around u64::MAX), first and last digits symbolic", ["less", "equal", "greater"]),
   R("ver", "h_cmp_special", "inf and epsilon against versions of up to 3 characters", ["less", "equal", "greater"])],
  outside="longer unstructured text")
P("C03", "Version order is transitive",
  "If a <= b and b <= c then a <= c, for all versions, so sorting and bisection over versions are meaningful. (Known exception, recorded: versions that differ only by trailing zero-valued tokens.)",
  "all triples of versions", "Tests check one or two triples; a cycle needs three specific versions.",
  [VER], [("Version::compare_rez", VER)],
  [R("ver", "h_trans_shapes", "triples of 11 shapes, digits and letters symbolic", ["triple"], dict(p0=10), dict(p0=14)),
   R("ver", "h_trans_chars", "triples of versions of 2 characters (any)", ["triple"], dict(p0=2), dict(p0=3))],
  outside="longer unstructured text")
P("C04", "Equal versions hash equally",
  "Whenever two versions compare equal they feed identical data to a hasher, so hash maps and sets treat them as the same key.",
  "all pairs of equal versions", "The tests hash one version against itself.",
  [VER], [("Hash for Version", VER)],
  [R("ver", "h_hash", "pairs of versions of up to 3 free characters, and pairs of 17 longer shapes", ["equal"])])
P("C06", "A version range contains exactly the versions its text describes",
  "Range text is a '|' union of alternatives; an alternative is '*' or empty (everything), 'a+' , 'a+<b', 'a..b' (a included, b excluded), or comma/space separated terms with >=, >, <=, <, ==, !=, ~= or a bare version (exact); 'empty' or '!*' contains nothing. Well-formed range text parses, ill-formed text is refused, and membership of every version is exactly what the text says.",
  "all range texts and all versions", "Tests sample literals; the grammar's combinations (spaces, unions, shorthand) and boundary versions are unbounded.",
  [RNG + "parser.rs", RNG + "types.rs", RNG + "mod.rs"], [("VersionRange::parse, contains", RNG + "mod.rs")],
  [R("ver", "h_range_alt", "one alternative of every syntax, bounds and tested version of 4 shapes each, all digits/letters symbolic", ["in", "out"], dict(p0=4, p1=4), dict(p0=6, p1=4)),
   R("ver", "h_range_or", "two alternatives of every syntax, symbolic digits", ["in", "out"]),
   R("ver", "h_range_conj", "three terms of every kind that must all hold, or three alternatives, symbolic digits", ["in", "out"]),
   R("ver", "h_range_compat", "~= on 2..4-part versions incl. numbers next to u64::MAX", ["in", "out"]),
   R("ver", "h_range_compat_max", "~= at u64::MAX and above", ["max"]),
   R("ver", "h_range_raw", "any text of 0..{p0} characters over '>=<!~|,+* .1ap'", ["accepted", "rejected"], dict(p0=4, p1=2), dict(p0=5, p1=5))],
  outside="ranges with more than two alternatives or terms per alternative; longer unstructured text")
P("C07", "Range intersection, union, difference and subset agree with membership",
  "For ranges A, B (parsed or themselves computed) and any version v: the intersection contains v iff both do and is absent only if nothing is common; the union contains v iff either does; the difference contains v iff A does and B does not, and is absent only if nothing is left. If v is in both, the ranges report intersecting; if v is in A but not in B, A is not reported a subset of B; intervals and exact versions, also when themselves intersections, intersect exactly when they overlap.",
  "all pairs (and nested combinations) of ranges and all versions", "Tests sample a few pairs; the subset and difference tests probe hand-picked versions internally, so gaps need particular bounds.",
  [RNG + "mod.rs", RNG + "satisfiability.rs"], [("intersect, intersects, union, subtract, is_subset_of, is_superset_of", RNG + "mod.rs")],
  [R("ver", "h_alg_terms", "pairs of single terms, every operator, 2 shapes each, 4 shapes of version", ["common", "outside"], dict(p0=2, p1=4), dict(p0=3, p1=5)),
   R("ver", "h_alg_intervals", "intervals, unions and exclusions", ["common", "outside"]),
   R("ver", "h_alg_large", "bounds and versions beyond 999.999.999 (dates)", ["common", "outside"]),
   R("ver", "h_alg_compose", "results of an operation combined with a third range, both ways", ["composed", "common", "outside"]),
   R("ver", "h_alg_exact", "intervals and exact versions: exact overlap, reflexivity, monotonicity", ["meet", "apart"]),
   R("ver", "h_alg_exact3", "three intervals or exact versions: exact overlap", ["meet", "apart"])],
  outside="versions with zero-valued tokens (there the order itself is cyclic, see C03); three or more terms", assumptions=["no zero-valued tokens in bounds and versions"])
P("C08", "A stored range or version reads back with the same meaning",
  "Writing a parsed version range (or version) as JSON and reading it back yields the same text and exactly the same members. A computed range either reads back with the same members or is refused; it never silently changes.",
  "all ranges and versions", "No test checks membership after a round trip.",
  [RNG + "mod.rs", VER], [("Serialize/Deserialize for VersionRange and Version", RNG + "mod.rs")],
  [R("ver", "h_range_serde", "ranges of {p0} alternative(s), every syntax, symbolic digits", ["stored"], dict(p0=1), dict(p0=2)),
   R("ver", "h_ver_serde", "versions of 8 shapes, symbolic letters and digits, inf and empty", ["version"]),
   R("ver", "h_range_serde_computed", "intersections, differences and unions of two terms", ["kept"])])
# ---------------------------------------------------------------- requirements
REQ = "crates/rez-next-package/src/requirement/"
P("C09", "A requirement's text determines its fields, and printing gives it back",
  "Requirement text is an optional mark ('!' conflict, '~' weak), an optional 'namespace::', a package name, an optional version part (==, >=, >, <=, <, ~= terms, comma-separated terms that all apply, '==1.2.*', '-1.2', '-1.2+', '-1.2+<2', '-1.2+<=2', '-1..2') and optional [platform..]/[env..] conditions. Parsing yields exactly those fields; printing the requirement and parsing it again yields an equal requirement; no text makes the parser panic.",
  "all requirement texts", "Tests check a few literals; marks, namespaces, operators, shorthand and conditions combine freely.",
  [REQ + "parser.rs", REQ + "display.rs"], [("RequirementParser::parse", REQ + "parser.rs"), ("Display for Requirement", REQ + "display.rs")],
  [R("pkg", "h_req_fields", "every mark/namespace/name shape with 4 specs, every spec with one name; all letters and digits symbolic", ["parsed"]),
   R("pkg", "h_req_conditions", "1..2 conditions of every kind, symbolic names and values", ["parsed"]),
   R("pkg", "h_req_raw", "any text of 0..{p0} characters over 'a1_-.+<>=~!,:* '", ["accepted", "rejected"], dict(p0=4), dict(p0=5))],
  outside="names or versions containing '-' in the '-1.2' forms (ambiguous), empty versions ('a-'), longer unstructured text")
P("C10", "A version satisfies a requirement exactly when its text says so",
  "Terms compare at the depth of the constraint: only as many leading version tokens as the constraint has are compared, with the version order (numbers by value, words below numbers); '==', '>=', '>', '<=', '<' hold accordingly; '~=X.Y' needs equal tokens before the last and the last not lower; 'name-X.Y' and '==X.Y.*' need the version to start with those tokens; all terms of a requirement must hold. A version shorter than the constraint compares by the full version order.",
  "all requirements and versions", "The resolver's every decision rests on this predicate; tests sample it.",
  [REQ + "types.rs"], [("VersionConstraint::is_satisfied_by, cmp_at_depth", REQ + "types.rs")],
  [R("pkg", "h_req_sat", "every spec syntax, bounds of 3 shapes, versions of 4 shapes, symbolic digits", ["satisfied", "unsatisfied"]),
   R("pkg", "h_req_sat_words", "bounds and versions with words and two-digit numbers", ["satisfied", "unsatisfied"]),
   R("pkg", "h_req_sat_long", "bounds of 4 and 5 tokens, versions of 3 to 5 tokens, every operator", ["satisfied", "unsatisfied"]),
   R("pkg", "h_req_sat_terms", "three and four terms, the deciding one at any place", ["satisfied", "unsatisfied"]),
   R("pkg", "h_con_compose", "three constraints joined by 'and'/'or' in both groupings; excluded versions", ["satisfied", "unsatisfied"])],
  outside="more than four terms; versions with '-' or '+' separators")
P("C05", "A requirement's conditions hold exactly where their text says",
  "Platform conditions: the requirement applies when none of its '!=' conditions matches the platform (and architecture, where one is given) and, if it has '==' conditions, at least one of them matches - in whatever order they are listed. Environment conditions: all must hold; '[env.X]' asks that X is set, '!=None' that it is not, '=='/'!=' compare the value, and an unset variable has no value.",
  "all lists of conditions, platforms and environments", "A condition that is decided by the order of its list, or by an unset variable, needs a particular combination; tests sample single conditions.",
  [REQ + "types.rs"], [("Requirement::is_platform_satisfied, is_env_satisfied", REQ + "types.rs"), ("RequirementParser::parse_conditions", REQ + "parser.rs")],
  [R("pkg", "h_req_where", "1 to {p0} conditions over 2 platforms and 2 architectures or none, every host", ["applies", "does not apply"], dict(p0=2), dict(p0=3)),
   R("pkg", "h_req_env", "1 to {p0} conditions over 2 variables, symbolic values of up to 1 character, every environment", ["applies", "does not apply"], dict(p0=2), dict(p0=3))],
  outside="more conditions; other platforms and variables")
P("C11", "Package requirements and resolver requirements agree",
  "A PackageRequirement (the form the command line and contexts use) prints to text that the resolver's requirement parser reads as the same package, marks and version constraint, reads back from its own printed form unchanged, and accepts exactly the versions its text describes.",
  "all requirement texts and versions", "The CLI hands the printed form to the resolver; no test compares the two readings.",
  ["crates/rez-next-package/src/package/requirement.rs"], [("PackageRequirement::parse, Display, satisfied_by", "crates/rez-next-package/src/package/requirement.rs")],
  [R("pkg", "h_preq_print", "every mark and spec syntax, symbolic digits", ["printed"]),
   R("pkg", "h_preq", "every spec syntax, bounds of 2 shapes, versions of {p0} shapes", ["satisfied", "unsatisfied"], dict(p0=3), dict(p0=3)),
   R("pkg", "h_preq_exclude", "'!=' alone and with a second term", ["satisfied", "unsatisfied"])],
  outside="conditions and namespaces in package requirements")
# ---------------------------------------------------------------- resolver
DR = "crates/rez-next-solver/src/dependency_resolver.rs"
RS = "crates/rez-next-solver/src/resolution_state.rs"
RES = [("DependencyResolver::resolve", DR), ("ResolutionState", RS)]
UNI = "2 versions of a, 2 of bb, {p4} of ccc (every order of digits); dependencies from {p1}/{p2} menus (need, conflict, weak; {p3} requirement kinds), {p0} request forms"
P("C12", "A successful resolve is consistent, and every resolve ends",
  "When a strict resolve succeeds, the result holds at most one version of each package, every one of them from the repositories; every request and every requirement of every picked package (and picked variant) is met by the picked version, weak requirements ('~') hold for packages that are present, and no picked package is excluded by a conflict requirement ('!') of the request or of another picked package; nothing unneeded is picked. Every resolve ends, also when packages require each other in a circle.",
  "all package universes and requests", "A resolver bug needs a particular web of versions, requirements and request order; tests hold a few dozen hand-made ones.",
  [DR, RS], RES,
  [R("solv", "h_res_sound", UNI, ["resolved", "failed"], dict(p0=3, p1=4, p2=3, p3=2, p4=1), dict(p0=7, p1=6, p2=6, p3=3, p4=2, p5=1)),
   R("solv", "h_res_sound", "circular requirements: a needs bb, bb needs or excludes a or ccc, " + UNI, ["resolved", "failed"], dict(p0=1, p1=2, p2=6, p3=2, p4=1), dict(p0=3, p1=3, p2=6, p3=3, p4=1)),
   R("solv", "h_res_diamond", "two requested packages, 2 versions each, that need, exclude or weakly need a third in {p2} versions", ["resolved", "failed"], dict(p0=3, p1=2, p2=1), dict(p0=3, p1=3, p2=2)),
   R("solv", "h_res_variants", "a package with two variants, {p0} requirement kinds from {p1} marks", ["first", "second", "failed"], dict(p0=3, p1=4), dict(p0=5, p1=4))],
  outside="more families or versions; requirement conditions and namespaces; variants with several requirements", assumptions=["versions are single digits (the version order itself is C02)", "replacement limit (max_attempts) set to 20"])
P("C13", "A strict resolve fails only when there is no solution",
  "If some selection of available packages meets the request, a strict resolve succeeds: versions whose requirements cannot be met are given up for older ones. Checked where only one requested package has dependencies. (Known exception, recorded: when several packages with dependencies have to be re-picked together the search gives up too early.)",
  "all package universes and requests", "Backtracking depends on the whole web of versions; tests hold a few.",
  [DR, RS], RES,
  [R("solv", "h_res_complete", UNI, ["resolved", "failed"], dict(p0=7, p1=6, p2=1, p3=3, p4=2), dict(p0=7, p1=6, p2=1, p3=5, p4=2, p5=1)),
   R("solv", "h_res_complete", UNI, ["resolved", "failed"], dict(p0=1, p1=2, p2=2, p3=2, p4=1), dict(p0=2, p1=2, p2=2, p3=2, p4=1))],
  outside="several packages with dependencies of their own (recorded finding)", assumptions=["versions are single digits"])
P("C14", "A non-strict resolve reports everything it could not satisfy",
  "Without strict mode the resolver returns a best effort: every package some request or picked package's requirement (or conflict) is not honoured for is listed under failed_requirements, and no honoured (non-weak) requirement is listed.",
  "all package universes and requests", "A requirement dropped silently gives an environment that looks complete.",
  [DR, RS], RES,
  [R("solv", "h_res_lenient", UNI, ["resolved", "partial"], dict(p0=3, p1=4, p2=3, p3=2, p4=1), dict(p0=7, p1=6, p2=6, p3=2, p4=2))],
  outside="more families or versions", assumptions=["versions are single digits"])
P("C15", "Resolving is deterministic and prefers the newest versions",
  "The outcome depends only on the packages and the request: hash seeds and the order in which a repository lists packages do not matter. When the newest (with prefer_latest off: the oldest) version of every package that the request allows fits together, exactly those are picked; between repositories the newest version wins and the first repository wins a tie; prereleases are picked only when allowed.",
  "all package universes, requests, hash seeds and listing orders", "Hash-order bugs show only for particular seeds; tests see whatever seed the process drew.",
  [DR, RS, "crates/rez-next-repository/src/simple_repository.rs"], RES + [("RepositoryManager::find_packages", "crates/rez-next-repository/src/simple_repository.rs")],
  [R("solv", "h_res_seeds", UNI + "; strict and not; hash order symbolic among {p7} pairs", ["resolved", "failed"], dict(p0=2, p1=4, p2=2, p3=2, p4=1, p7=2), dict(p0=3, p1=5, p2=3, p3=2, p4=1, p7=5)),
   R("solv", "h_res_listing", UNI, ["resolved", "failed"], dict(p0=3, p1=3, p2=3, p3=2, p4=1, p5=1), dict(p0=7, p1=5, p2=5, p3=2, p4=1)),
   R("solv", "h_res_prefer", UNI + ", newest or oldest preferred", ["resolved"], dict(p0=3, p1=4, p2=2, p3=2, p4=1), dict(p0=7, p1=6, p2=5, p3=2, p4=2)),
   R("solv", "h_res_repos", "one package in two repositories, any single-digit versions", ["one", "two"]),
   R("solv", "h_res_prerelease", "8 words, either case, any single-digit versions", ["word", "plain"])],
  over=("inputs", "schedules"), outside="more families or versions; hash orders beyond the modelled pairs", assumptions=["versions are single digits"])
# ---------------------------------------------------------------- rex and environments
REX = "crates/rez-next-rex/src/"
ENV = "crates/rez-next-context/src/environment.rs"
P("C17", "Rex statements are read exactly as written and never dropped",
  "Every supported statement of a package's commands (env.setenv/setenv, unsetenv, prepend/append, setenv_if_empty, resetenv, alias, command, source, info, error, stop, comment, export) with either kind of quotes and any spacing yields one action with exactly the name and value written. Every non-blank line of a command text becomes exactly one action, or the whole text is refused; a value containing quotes, commas or '#' is kept exactly or refused.",
  "all command texts", "A statement that is skipped or cut short silently gives a wrong environment; tests hold a few literals.",
  [REX + "parser.rs"], [("RexParser::parse", REX + "parser.rs")],
  [R("rex", "h_rex_statement", "20 statement forms, 3 spacings/quotings, names of 2 symbolic characters, values of 0..{p0} printable characters", ["parsed"], dict(p0=1), dict(p0=2)),
   R("rex", "h_rex_raw", "7 statement beginnings followed by 0..{p0} characters of a#/ '\"(),= and newline", ["accepted", "rejected"], dict(p0=4), dict(p0=6)),
   R("rex", "h_rex_quotes", "6 statement forms, values of {p0} characters with quotes, backslash, '#', ',' and ')'", ["kept", "refused"], dict(p0=3), dict(p0=6))],
  outside="longer names and values; non-ASCII values; if-blocks", assumptions=["patterns are compiled by the real regex crate; a memoising wrapper shares compiled patterns between paths"])
P("C18", "Running rex commands gives the environment the statements describe",
  "Statements take effect in order: setenv replaces, prepend puts the value in front and append behind the current value with one ':' between (none when it was empty or unset), setenv_if_empty only sets an unset variable, unset removes; aliases, startup commands, sourced scripts and messages are kept in order; nothing after stop() has any effect and its message is kept. References such as {root}, {version}, {this.version.major}, {name}, $ROOT are replaced by their values exactly once, whatever the hash seed, and unknown references stay as they are.",
  "all statement sequences, values and hash seeds", "Order and expansion bugs need particular combinations (or hash seeds); tests hold a few.",
  [REX + "executor.rs", REX + "environment.rs", REX + "lib.rs"], [("RexExecutor::execute_commands, expand_action_vars", REX + "executor.rs"), ("RexEnvironment::apply", REX + "lib.rs")],
  [R("rex", "h_rex_env", "{p0} statements of 12 kinds over 2 names, symbolic values", ["done", "stopped"], dict(p0=3), dict(p0=4)),
   R("rex", "h_rex_expand", "every reference, alone and with a second one, {p0} hash seeds, roots with {p1} symbolic characters (braces included), symbolic versions", ["only package", "second package"], dict(p0=6, p1=2), dict(p0=24, p1=3)),
   R("rex", "h_rex_kinds", "every reference in every kind of statement, versions of 1..4 tokens or none, alone or after another package on the same executor", ["only package", "second package"])],
  over=("inputs", "schedules"), outside="longer sequences; ${...} expansion against the process environment; if-blocks")
P("C19", "A generated activation script sets exactly the environment",
  "The bash, zsh, fish and PowerShell scripts generated for an environment, read by that shell's own quoting rules, set every variable, alias and sourced script to exactly its value, run nothing hidden inside a value, and contain nothing else. ('$' in bash/fish variables and sourced paths is left to the shell by design.)",
  "all values", "A quoting bug is an injection; tests try a few characters.",
  [REX + "shell.rs"], [("generate_shell_script", REX + "shell.rs")],
  [R("rex", "h_rex_shell", "a variable, alias, sourced path or message of {p0} ASCII characters (no NUL or CR) beside other variables, 2 hash seeds", ["bash", "fish", "powershell"], dict(p0=4), dict(p0=6)),
   R("rex", "h_rex_sections", "0..2 variables, aliases, sourced scripts and messages each, one symbolic character per value, 3 hash seeds", ["bash", "fish", "powershell"])],
  outside="cmd.exe scripts; names that are not shell identifiers; non-ASCII values", assumptions=["shell quoting rules as written in harness/rex/src/sh.rs (bash, fish, PowerShell manuals)"])
P("C20", "An environment is built from base, package commands, then configuration",
  "Generating a context's environment runs pre_commands of all packages, then commands of all, then post_commands of all, each in resolve order, on top of the base environment; tool directories go on PATH as the path strategy says with duplicates dropped (first one kept); configured variables are applied after that and unset variables last; other variables are left alone; stop() is reported with its message. The environment difference lists exactly the added, changed and removed variables.",
  "all package commands, values, strategies and hash seeds", "Combinations of phases, strategies and configuration; tests hold a handful.",
  [ENV], [("EnvironmentManager::generate_rex_environment, get_env_diff, normalize_environment_paths", ENV)],
  [R("rex", "h_env_refs", "2 packages with symbolic versions of 0..3 tokens, on disk or not, every reference in every phase", ["run"]),
   R("rex", "h_env_phases", "2 packages, up to {p0} statements of 5 kinds over the 6 phase slots, symbolic values, with and without a base value", ["run"], dict(p0=3), dict(p0=4)),
   R("rex", "h_env_path", "4 strategies, PATH of 0..3 symbolic entries, 0..2 tool packages, 3 hash seeds", ["path"]),
   R("rex", "h_env_config", "command, additional and unset combinations, 3 hash seeds, symbolic values", ["done", "stopped"])],
  over=("inputs", "schedules"), outside="Windows name folding; packages whose root is on disk (the model file system is empty here)")
P("C21", "Context shell scripts carry every value unchanged",
  "The script EnvironmentManager::generate_shell_script writes for bash, zsh, fish and PowerShell, read by that shell's own quoting rules, sets every variable to exactly its value and runs nothing hidden inside a value.",
  "all values", "A quoting bug is an injection; tests try a few characters.",
  [ENV], [("generate_shell_script and escape_*_value", ENV)],
  [R("rex", "h_env_script", "a value of {p0} ASCII characters (no NUL or CR) beside another variable", ["bash", "fish", "powershell"], dict(p0=4), dict(p0=6))],
  outside="cmd.exe scripts; names that are not shell identifiers; non-ASCII values", assumptions=["shell quoting rules as written in harness/rex/src/sh.rs"])
# ---------------------------------------------------------------- package operations on disk
PKO = "crates/rez-next-package/src/package_"
P("C25", "Copying, moving and removing packages loses nothing, wherever it fails",
  "A successful copy is identical to its source (files, directories, links); a move leaves exactly the destination and removes only its own source (and an emptied family directory); removal deletes exactly the named version or family in the search paths, as its preview says. An existing package is replaced only with force. Whatever file operation fails, and if everything fails from some point on (a crash or full disk): the source of a copy is untouched, a move leaves at least one complete copy, and nothing but source and destination changes. Names and versions that are paths ('', '..', absolute) are refused and change nothing.",
  "all repository states in bounds, all failure points", "Failure points and path-like names are not exercised by tests, and the damage is permanent.",
  [PKO + "copy.rs", PKO + "move.rs", PKO + "remove.rs"], [("copy_package, find_package_dir", PKO + "copy.rs"), ("move_package", PKO + "move.rs"), ("remove_package_version, remove_package_family, preview_removal", PKO + "remove.rs")],
  [R("fsop", "h_fs_copy", "2 search paths and a destination, each with or without the package (both directory layouts), symbolic contents, force or not; failure at any of the first {p0} mutating operations, once or for good", ["copied", "failed"], dict(p0=20), dict(p0=30)),
   R("fsop", "h_fs_move", "the same, with and without keep_source; failure at any of the first {p0} mutating operations", ["moved", "failed"], dict(p0=24), dict(p0=40)),
   R("fsop", "h_fs_remove", "version or family, with and without pruning; failure at any of the first {p0} mutating operations", ["removed", "nothing", "failed"], dict(p0=12), dict(p0=24)),
   R("fsop", "h_fs_names", "6 names x 7 versions x 4 operations, path-like", ["refused"])],
  over=("inputs", "fault_sequences", "crash_points"), outside="failures of reading operations; partial writes; concurrent changes; destinations inside the source", assumptions=["POSIX file system semantics as modelled in engine/src/fs.rs"])
# ---------------------------------------------------------------- graph, filters, orderers, utilities
GR = "crates/rez-next-solver/src/graph.rs"
P("C16", "The dependency graph reports order, cycles, depth and conflicts truly",
  "After any sequence of adding, re-adding and removing packages and adding edges (edges to missing packages are refused and change nothing): the resolved list holds every package once, each before the packages it depends on, exactly when there is no cycle; a reported cycle follows real edges; reachability, package and edge counts and depth (longest chain) match the edges. A package is in conflict exactly when two of its requirements share no version; excluded packages are refused. All of this holds for every hash seed.",
  "all graphs, histories and hash seeds in bounds", "Wrong order or a missed cycle needs a particular shape and hash seed.",
  [GR], [("DependencyGraph", GR)],
  [R("misc", "h_graph", "all graphs on {p0} packages (one self-edge), then one of: nothing, re-add, remove, refused edge plus a late package; {p1} hash seeds", ["sorted", "cycle"], dict(p0=4, p1=1), dict(p0=4, p1=6)),
   R("misc", "h_graph_req", "1..{p0} requirements on 2 packages with 6 operators and symbolic versions, 2 hash seeds, exclusions", ["conflict", "compatible"], dict(p0=3), dict(p0=4))],
  over=("histories", "inputs", "schedules"), outside="more packages; several changes after the edges; conflicts among three requirements that overlap pairwise")
PF = "crates/rez-next-package/src/filter.rs"
FF = "crates/rez-next-package-filter/src/"
P("C22", "A package filter excludes exactly what its rules say",
  "In both filter implementations: in a glob '*' matches any text, '?' one character and every other character itself, over names, descriptions and version text; regex rules match names; a range rule matches only the package it names, in its versions; time rules compare the package's timestamp, and rules bound to a family apply to it only. A package is excluded exactly when some exclusion matches and no inclusion does (a list of filters: when any filter excludes it). A filter stored as plain data and read back decides the same.",
  "all rules and packages in bounds", "Rule combinations and special characters; tests hold single examples.",
  [PF, FF + "rule.rs", FF + "filter.rs"], [("PackageFilter, parse_rule and rules", PF), ("rules", FF + "rule.rs"), ("PackageFilter", FF + "filter.rs")],
  [R("misc", "h_flt_glob", "6 uses of globs of 1..{p0} characters of a*?.+\\[, texts of 1..{p1} characters of ab.+\\[ and newline", ["match", "no match"], dict(p0=3, p1=3), dict(p0=4, p1=4)),
   R("misc", "h_flt_version", "globs of 1..{p0} characters of 1*?. on symbolic versions of 4 shapes", ["match", "no match"], dict(p0=3), dict(p0=5)),
   R("misc", "h_flt_rules", "1..{p0} exclusions and up to {p1}-1 inclusions of 6 rule kinds with symbolic bounds, both implementations, 2 hash seeds; package with symbolic version and timestamp", ["excluded", "kept"], dict(p0=2, p1=2), dict(p0=2, p1=3)),
   R("misc", "h_flt_time", "4 time rules, symbolic times, with and without family", ["excluded", "kept"])],
  outside="'**' and '[' classes in glob-crate patterns; regex rules beyond '^a$'; family-bound rules in stored data (not stored by design)")
OR = "crates/rez-next-package/src/package_order.rs"
P("C23", "Package orderers order as documented and lose no package",
  "Every orderer returns each given package exactly once, equal ones in their given order: sorted by version (ascending or descending, unversioned last), versions up to a split point first, packages up to a timestamp first and newest first, unchanged, or per family with each family ordered by its own orderer or the default. In a list, the first orderer covering a package is used. The order does not depend on hashing, and an orderer stored as data and read back orders the same.",
  "all package lists and orderers in bounds, all hash seeds", "Which version is preferred follows from it; unversioned packages and ties are rare in tests.",
  [OR], [("PackageOrder implementations, PackageOrderList, from_pod, get_orderer", OR)],
  [R("misc", "h_ord_one", "5 orderers with symbolic parameter, {p0} packages with symbolic or no version and timestamp", ["ordered"], dict(p0=3), dict(p0=4)),
   R("misc", "h_ord_family", "per-family orderers, {p0} packages of 2 families, {p1}+1 hash seeds", ["ordered"], dict(p0=3, p1=3, p2=0), dict(p0=3, p1=6, p2=1)),
   R("misc", "h_ord_list", "lists of up to 3 orderers with 4 family sets", ["found"])],
  over=("inputs", "schedules"), outside="multi-token versions (C02 covers their order); the rank parameter")
UT = "crates/rez-next-util/src/"
P("C27", "Short link names never clash; text and duration helpers never corrupt",
  "The next base-26 name is the successor of the last (none skipped or repeated; anything but a-z is refused); creating a unique link always succeeds in a usable directory however many links exist, points at its source, gives the same link for the same source and leaves the others alone. Truncated text fits its limit, is a beginning of the original and never cuts a character; made identifiers are valid. A duration is its number times its unit, or refused when too large.",
  "all inputs in bounds, directory orders", "Boundaries (after z, multi-byte characters, overflow) tests do not reach.",
  [UT + "base26.rs", UT + "string.rs", UT + "time.rs"], [("get_next_base26, create_unique_base26_symlink", UT + "base26.rs"), ("truncate, to_python_identifier, is_valid_identifier", UT + "string.rs"), ("parse_duration", UT + "time.rs")],
  [R("misc", "h_util_base26", "names of 0..{p0} characters of a-z, A, 1", ["next", "refused"], dict(p0=4), dict(p0=6)),
   R("misc", "h_util_links", "0..{p0}-1 links already there, both directory orders, with another file", ["linked"], dict(p0=48), dict(p0=120)),
   R("misc", "h_util_text", "texts of 0..{p0} characters (ASCII symbolic, 2- and 3-byte), limits 0..7", ["text"], dict(p0=4), dict(p0=5)),
   R("misc", "h_util_duration", "numbers of up to 19 digits with symbolic digits, 5 units", ["read", "refused"])],
  outside="link creation races (retries); non-UTF-8 file names")
# ---------------------------------------------------------------- package definitions
SE = "crates/rez-next-package/src/serialization/"
P("C24", "A package definition written as Python, YAML or JSON reads back the same",
  "A package written to package.py, package.yaml or package.json (plain, pretty or with metadata; to text or to a file with the default options) and loaded again has the same name, version, description, authors, requirements, variants, tools, commands, help and build settings, whatever characters its text holds. A version given as a number is refused or kept as written, never dropped or changed.",
  "all text and field arrangements in bounds", "Quotes, backslashes, line breaks and nested lists in combination; what is lost is noticed only when the package is resolved.",
  [SE + "save.rs", SE + "load.rs", "crates/rez-next-package/src/python_ast_parser"], [("save_to_string, save_to_file, save_container_to_string", SE + "save.rs"), ("load_from_string, load_from_file", SE + "load.rs"), ("PythonAstParser", "crates/rez-next-package/src/python_ast_parser")],
  [R("ser", "h_ser_text", "7 ways of writing, one of {p1} text fields holding 0..{p0} characters of a, quotes, backslash, newline, #, brace, colon, space and dash (thorough: more control characters and symbols)", ["same"], dict(p0=2, p1=3, p2=0), dict(p0=2, p1=13, p2=1)),
   R("ser", "h_ser_fields", "7 ways of writing, lists of up to 6 requirements, up to 3 variants of up to 3, 4 names, 5 version shapes with symbolic digits", ["same"]),
   R("ser", "h_ser_file", "3 file formats with default options, description of 0..2 odd characters, symbolic version", ["same"]),
   R("ser", "h_ser_version", "versions as numbers or text in YAML and JSON", ["read", "refused"])],
  outside="XML, TOML and binary forms; tests, hashed variants and timestamp fields; longer texts")
PY = "crates/rez-next-package/src/python_ast_parser/"
P("C32", "Values in a package.py are what Python computes, or the file is refused",
  "Every field of a package read from package.py holds the value Python gives the expression assigned to it: string joining and repetition, integer arithmetic (a result that does not fit is refused), chained comparisons, and/or/not and conditional expressions with Python's truth values, str.format with numbered or automatic fields (one pass, arguments are not expanded again), lower(), lists and tuples; numbers and booleans used as text are written as str() does. A name holds what was last assigned to it, also when the new value uses the old one or several names are assigned at once; the branch taken is the one Python takes. What cannot be computed is refused, never dropped or guessed; nothing panics.",
  "all expressions and statements in bounds", "A wrong value needs a particular nesting of operators or a particular argument; tests hold a handful of files.",
  [PY + "eval.rs", PY + "extract.rs", PY + "mod.rs"], [("evaluate_expression", PY + "eval.rs"), ("extract_string_value, extract_int_value, extract_string_list", PY + "extract.rs"), ("process_statement, process_assignment", PY + "mod.rs")],
  [R("ser", "h_py_string", "string expressions nested {p0} deep, symbolic characters, digits 0..3, i64::MAX and negative numbers", ["read", "refused"], dict(p0=1), dict(p0=2)),
   R("ser", "h_py_format", "9 format strings, 2 arguments of 4 types, texts of 0..3 characters of a, braces and 1", ["read", "refused"]),
   R("ser", "h_py_int", "integer expressions nested {p0} deep", ["read", "refused"], dict(p0=1), dict(p0=2)),
   R("ser", "h_py_bool", "conditions nested {p0} deep, in an if statement and as a value", ["read"], dict(p0=1), dict(p0=2)),
   R("ser", "h_py_names", "{p0} assignments over 3 names, referring to each other, with several targets, in branches", ["read", "refused"], dict(p0=2), dict(p0=2)),
   R("ser", "h_py_lists", "lists, tuples, sums of lists, variants and tests with symbolic characters", ["read"])],
  outside="deeper nesting; os.getenv, system.* and this.* values; numbers in exponent notation")
P("C33", "Commands in a package.py do what they say, or the package is refused",
  "Running the commands() function of a package.py in the environment it builds gives exactly the variables and aliases its statements say (env.X = .., env.X.append/prepend/set, setenv, appendenv, prependenv, unsetenv, alias, local names, if/else on the platform), in order, with the values Python gives them. A statement that cannot be carried over, or a value with quotes or line breaks that has no form in the command language, is refused when the package is read or run: it never vanishes, and text in a value never becomes another statement.",
  "all statements and values in bounds", "A value that looks like a statement, or an assignment form nobody tested, changes the environment silently.",
  [PY + "commands.rs", "crates/rez-next-rex/src/parser.rs"], [("process_commands_function, extract_command_from_statement", PY + "commands.rs"), ("RexParser::parse", "crates/rez-next-rex/src/parser.rs"), ("RexExecutor::execute_commands", "crates/rez-next-rex/src/executor.rs")],
  [R("ser", "h_py_commands", "1..{p0} statements of 17 forms over 2 variables, values of 0..{p1} characters of a, quotes, newline, parenthesis, space, backslash and #, and values spelling statements", ["read", "refused", "done"], dict(p0=2, p1=2), dict(p0=2, p1=3))],
  outside="more statements; for/while/try/with in commands (refused); pre_commands and post_commands functions (same code)")
# ---------------------------------------------------------------- suites, repositories, search, cache
SU = "crates/rez-next-suites/src/"
P("C26", "A suite shows exactly its contexts' tools and is stored whole",
  "A suite shows the visible aliased tools of its enabled contexts; for a name several contexts give, it reports the conflict, keeps the first, keeps the last, or keeps the first plainly and the others as <context>_<name> without losing any tool, as its mode says and whatever the hash seed. Contexts have valid, distinct names and keep their order. A saved suite loads the same whatever its text holds, replacing an older one; the suite found for a name is the one in the first search path having it.",
  "all suites and histories in bounds, all hash seeds", "Conflict modes combine with hidden tools, disabled contexts and map order.",
  [SU + "suite.rs", SU + "suite_context.rs", SU + "suite_manager.rs"], [("get_tools, add_context, remove_context, save, load", SU + "suite.rs"), ("SuiteContext", SU + "suite_context.rs"), ("SuiteManager", SU + "suite_manager.rs")],
  [R("suite", "h_suite_tools", "{p0} contexts with any of {p1} aliases to 2 tools, hidden and disabled, 4 modes, {p2} hash seeds", ["conflict", "tools"], dict(p0=2, p1=3, p2=2), dict(p0=3, p1=2, p2=2)),
   R("suite", "h_suite_contexts", "{p0} additions, removals and tool changes; the first name of 0..2 characters of aB-_ .1/", ["added", "removed"], dict(p0=3), dict(p0=5)),
   R("suite", "h_suite_io", "one text field holding 0..{p0} characters of a, quotes, backslash, newline, #, brace, colon, space, dash and tilde; 2 or 3 contexts", ["same"], dict(p0=2), dict(p0=3)),
   R("suite", "h_suite_find", "2 search paths, 2 names each absent, a directory, a file or a suite; both directory orders", ["loaded", "missing"])],
  over=("inputs", "histories", "schedules"), outside="failures while saving; wrapper scripts (not generated by the code); names beyond ASCII")
RP = "crates/rez-next-repository/src/"
P("C28", "A repository scan finds exactly the packages on disk, and lookups return them",
  "Every readable package.py below the repository (versioned, flat or nested, not below another package) is found once under its own name with its version and file, whatever the directory order; lookup by name and version returns that package or nothing, lookup without version the latest; names are listed once, in order. A family with an unreadable definition is reported, the same on every lookup and whatever was asked before; other families are unaffected. A new scan reflects later changes. Over several repositories, all packages are returned latest first, and a given version comes from the first repository having it. The indexed repository finds the same, and by name pattern exactly the names '*' and '?' match, up to its limit.",
  "all directory trees and lookup histories in bounds", "Layouts, orders and earlier lookups combine; what is silently missed changes a resolve.",
  [RP + "simple_repository.rs", RP + "filesystem.rs"], [("SimpleRepository, RepositoryManager", RP + "simple_repository.rs"), ("FileSystemRepository", RP + "filesystem.rs")],
  [R("repo", "h_scan", "a with 0..2 versions (symbolic digit), b flat, nested or absent, and one of: stray file, unreadable version, unreadable family, package below a package; both directory orders, 3 earlier histories", ["found", "unreadable"], dict(p0=1, p1=0), dict(p0=3, p1=1)),
   R("repo", "h_scan_many", "2 repositories with 0..2 versions of a (symbolic digit) and b", ["looked up"]),
   R("repo", "h_scan_index", "0..3 packages, one with variants; patterns of 0..{p1} characters of a*?._, version and limit criteria, {p0} hash seeds", ["looked up", "matched"], dict(p0=2, p1=2), dict(p0=3, p1=4))],
  over=("inputs", "histories", "schedules"), outside="deeper trees; links; package definitions beyond name, version and variants (C24); concurrent scans (blocking work runs in place, see DESIGN.md); limit 0", assumptions=["POSIX file system semantics as modelled in engine/src/fs.rs"])
P("C29", "Search and reverse dependencies report exactly the packages that match",
  "A search returns, per repository, exactly the families whose name matches (exact, prefix, contains ignoring case, or regular expression) with exactly their versions in the range, ascending, the latest marked, sorted by name and cut at the limit. The reverse dependency tree lists exactly the packages whose latest version requires the target (in requires, a variant or, if asked, build requirements; not as conflict or weak requirement), by distance and up to the depth, and the plugins of a package are those whose latest version says so. Nothing depends on hash or directory order.",
  "all repositories and queries in bounds", "Numeric version order, name prefixes and directory order; tests only check that nothing panics.",
  ["crates/rez-next-search/src/searcher.rs", "crates/rez-next-search/src/filter.rs", RP + "package_search.rs"], [("PackageSearcher::search", "crates/rez-next-search/src/searcher.rs"), ("SearchFilter::matches_name", "crates/rez-next-search/src/filter.rs"), ("get_reverse_dependency_tree, get_plugins", RP + "package_search.rs")],
  [R("repo", "h_search", "2 repositories with up to 3 families and 3 versions, 5 patterns, 4 modes, 3 ranges, 3 limits, 3 scopes, {p0} hash seeds", ["found", "nothing"], dict(p0=1, p1=0), dict(p0=2, p1=1)),
   R("repo", "h_reverse", "3 families with 7 requirements in 3 places and older versions requiring otherwise, both directory orders and a flat package, 3 depths", ["chain", "one", "none"], dict(p0=0), dict(p0=1))],
  over=("inputs", "schedules"), outside="invalid ranges and expressions; configured default paths; private build requirements; several repositories in the reverse tree", assumptions=["POSIX file system semantics as modelled in engine/src/fs.rs"])
P("C30", "Ignoring and removing packages of a repository does exactly that",
  "In a file system repository, after any sequence of operations: an ignored package is not listed or given and its files stay; unignoring shows it again; removing deletes exactly that version (or family: only when empty, or with force); sweeping removes exactly the ignored packages old enough, as its dry run counted; the returned codes say what happened. A read-only repository never changes; names and versions that are paths are refused. If a removal fails part way, at any operation, a package still listed is whole and everything else is untouched.",
  "all repository states, operation sequences and failure points in bounds", "Sequences and failure points; the damage is permanent.",
  [RP + "package_repository/filesystem.rs"], [("FilesystemPackageRepository", RP + "package_repository/filesystem.rs")],
  [R("repo", "h_life", "2 versions each there or not, ignored or not; {p0} of 8 operations; read-only or not", ["ignored", "unignored", "removed", "family", "swept"], dict(p0=2), dict(p0=3)),
   R("repo", "h_life_fault", "the same states, failure at any of the first {p0} mutating operations, once or for good", ["done", "failed"], dict(p0=12), dict(p0=20)),
   R("repo", "h_life_names", "8 names x 9 versions x 5 operations, path-like", ["refused"])],
  over=("inputs", "histories", "fault_sequences", "crash_points"), outside="age thresholds other than 0 and 1 day on fresh markers; concurrent changes; variant installation (not implemented)", assumptions=["POSIX file system semantics as modelled in engine/src/fs.rs"])
PC = "crates/rez-next-package-cache/src/lib.rs"
P("C31", "The package cache never returns a stale or torn entry",
  "After any sequence of storing, changing or deleting source files, removing, clearing and restarting: a lookup returns the entry stored last for that file exactly when the file is there, was not modified since (any later time, or a second or more earlier) and the entry has not expired; otherwise nothing, and never an error. The file-based cache keeps its entries over a restart. If a file operation fails at any point, later lookups still return nothing or a valid entry, and the cache goes on working.",
  "all histories and failure points in bounds", "Modification within a second, and interrupted writes; a stale definition resolves wrongly.",
  [PC], [("InMemoryCache, FileCache, PackageCache, CachedPackage::is_valid", PC)],
  [R("repo", "h_cache", "{p0} steps of 7 kinds on 2 files, both caches, 4 time changes, 4 lifetimes", ["hit", "miss"], dict(p0=3), dict(p0=4)),
   R("repo", "h_cache_fault", "store, lookup or removal with failure at any of the first 5 mutating operations, once or for good, then a restart", ["done", "failed"])],
  over=("histories", "fault_sequences", "crash_points"), outside="concurrent use; collisions of the 64-bit path hash; entries stored while their source is missing", assumptions=["POSIX file system semantics as modelled in engine/src/fs.rs"])
