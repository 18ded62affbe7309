------------------------------ MODULE Preflight ------------------------------
(* The pre-commit gate (scripts/agents/preflight.sh, docs/agents/preflight.md): the gates in order,
   what each says about a working tree and the tools at hand, and the verdict.

   tools    tool name -> "absent", "ok" or "bad" (pytest also "none": it collected nothing)
   cargo    subcommand -> "ok" or "bad"
   rust     there is a rust/ crate
   imports  the package imports
   new      the version in the working tree, "" when it cannot be read
   log      the changelog has a section for that version
   base     ref name -> the version there ("" unreadable); only refs that exist
   head     what origin/HEAD names ("" nothing)
   hits     forbidden tokens among added Python lines *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Formatters == <<"black", "isort", "ruff">>
GateName == [black |-> "black --check", isort |-> "isort --check-only", ruff |-> "ruff check"]
Trunk(s) == IF s.head # "" THEN s.head ELSE "master"
Base(s) == IF ("origin/" \o Trunk(s)) \in DOMAIN s.base THEN "origin/" \o Trunk(s) ELSE Trunk(s)
\* a formatter or linter that is not there: black is mandatory, the others only warn
Fmt(s, t) == CASE s.tools[t] = "absent" -> (IF t = "black" THEN "FAIL" ELSE "WARN") [] s.tools[t] = "ok" -> "PASS" [] OTHER -> "FAIL"
Crate(s, sub) == CASE ~s.rust -> "SKIP" [] s.tools["cargo"] = "absent" -> "WARN" [] s.cargo[sub] = "ok" -> "PASS" [] OTHER -> "FAIL"
Suite(s) == IF s.tools["pytest"] = "ok" THEN "PASS" ELSE "FAIL"       \* absent, failing or nothing collected
Markdown(s, e) == CASE e.md = "none" -> "SKIP" [] s.tools["markdownlint"] = "absent" -> "WARN"
                    [] e.md = "missing" -> "FAIL" [] s.tools["markdownlint"] = "ok" -> "PASS" [] OTHER -> "FAIL"
OldVersion(s) == IF Base(s) \in DOMAIN s.base THEN s.base[Base(s)] ELSE ""
Version(s, e) == CASE ~e.closing -> "SKIP"
                   [] s.new = "" \/ OldVersion(s) = "" \/ s.new = OldVersion(s) \/ ~s.log -> "FAIL" [] OTHER -> "PASS"
Tokens(s) == IF s.hits > 0 THEN "WARN" ELSE "PASS"
Rows(s, e) == << <<"black --check", Fmt(s, "black")>>, <<"isort --check-only", Fmt(s, "isort")>>, <<"ruff check", Fmt(s, "ruff")>>,
                 <<"cargo fmt --check", Crate(s, "fmt")>>, <<"cargo clippy", Crate(s, "clippy")>>, <<"cargo test", Crate(s, "test")>>,
                 <<"pytest", Suite(s)>>, <<"import hazma", IF s.imports THEN "PASS" ELSE "FAIL">>, <<"markdownlint", Markdown(s, e)>>,
                 <<"version bump", Version(s, e)>>, <<"forbidden tokens", Tokens(s)>> >>
Red(s, e) == \E i \in 1..11 : Rows(s, e)[i][2] = "FAIL"
Verdict(s, e) == IF e.bad # "" THEN (IF e.bad = "help" THEN 0 ELSE 2) ELSE IF Red(s, e) THEN 1 ELSE 0
\* what each tool is asked to look at: every gate runs, whatever the ones before it said
Asked(s, e) ==
  LET paths == IF e.paths = <<>> THEN {"hazma", "test"} ELSE {e.paths[i] : i \in 1..Len(e.paths)}
      cargo == {"--manifest-path", "rust/Cargo.toml"}
      on(t) == s.tools[t] # "absent"
      run(t, words) == IF on(t) THEN {[tool |-> t, words |-> words]} ELSE {}
  IN run("black", {"--check"} \cup paths) \cup run("isort", {"--check-only"} \cup paths) \cup run("ruff", {"check"} \cup paths) \cup
     (IF ~s.rust THEN {} ELSE run("cargo", cargo \cup {"fmt", "--check"}) \cup run("cargo", cargo \cup {"clippy", "--all-targets", "--", "-D", "warnings"})
                              \cup run("cargo", cargo \cup {"test", "--no-default-features"})) \cup
     run("pytest", {"-q"} \cup {e.tests[i] : i \in 1..Len(e.tests)}) \cup
     (IF e.md = "none" THEN {} ELSE run("markdownlint", {"--dot", "notes.md"} \cup (IF e.md = "missing" THEN {"gone.md"} ELSE {})))
Apply(s, e) ==
  CASE e.op = "tool" -> [s EXCEPT !.tools[e.name] = e.to]
    [] e.op = "cargo" -> [s EXCEPT !.cargo[e.name] = e.to]
    [] e.op = "rust" -> [s EXCEPT !.rust = e.to]
    [] e.op = "imports" -> [s EXCEPT !.imports = e.to]
    [] e.op = "new" -> [s EXCEPT !.new = e.to, !.log = e.log]
    [] e.op = "hits" -> [s EXCEPT !.hits = e.to]
    [] e.op = "refs" -> [s EXCEPT !.base = e.base, !.head = e.head]
    [] OTHER -> s
Green == [tools |-> [t \in {"black", "isort", "ruff", "cargo", "pytest", "markdownlint"} |-> "ok"], cargo |-> [c \in {"fmt", "clippy", "test"} |-> "ok"],
          rust |-> TRUE, imports |-> TRUE, new |-> "2.1.0", log |-> TRUE,
          base |-> ("origin/master" :> "2.0.0" @@ "master" :> "2.0.0"), head |-> "master", hits |-> 0]
=============================================================================
