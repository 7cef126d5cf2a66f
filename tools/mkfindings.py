#!/usr/bin/env python3
"""Writes known-findings.txt: the list of repaired defects (fixed:) from /repo's history, and the findings below."""
import subprocess
MAP = {  # subject (after "fix: ") prefix -> (property, what failed)
    "do not conflate booleans": ("C05", "true == 1, p(true) removed by -p(1), 1 found by a query for true, hash/equality mismatch (also C01, C12, C13, C25)"),
    "push the choicepoint when": ("C02", "p(X)[A] matched against an unbound variable undid earlier bindings (also C03)"),
    "undo the bindings of an action": ("C02", "bindings made by an action before it failed or was exhausted stayed"),
    "find variables in linked lists": ("C10", "beliefs such as p([H|T]) or p(1 + X) crashed the loader"),
    "report ill-typed and overflowing": ("C09", "constant expressions such as 1/0, 1 + a or 9**9**9 crashed the loader (also C10)"),
    "decode string constants": ("C06", 'a string constant with characters beyond latin-1 was garbled'),
    "report invalid escape": ("C10", 'p("\\x") crashed the loader'),
    "do not replace tabs": ("C07", "tabs inside of strings became spaces (also C06)"),
    "detect include cycles for": ("C11", "a cycle through ./a.asl recursed forever; errors in included files did not fail the load"),
    "raise AslError for undefined": ("C25", "1/0 and a < 1 raised python exceptions (also C10)"),
    "agents built together": ("C19", "build_agents shared beliefs, rules and plans between the agents"),
    "report python exceptions raised by the contexts": ("C10", "an exception in the context of the plan for an initial goal left build_agent as foreign exception"),
    "never order truth values": ("C05", "[true] < [2] and f(true) < f(2) were ordered (also C25)"),
    ".abolish removes": ("C12", ".abolish(p(1)) kept p(1)[a] and .abolish(p(X)[a]) removed p(1)"),
    "do not fail when a loop": ("C15", "for (p(X)) { -p(X) } ended with a python exception (also C13)"),
    "undo the bindings made by each": ("C15", "variables bound in the body of a for loop stayed bound in later iterations (also C02)"),
    "drop the intention": ("C24", "a failed step was tried again when the host kept running the environment"),
    "locate errors of removals": ("C24", "errors in removals and in conditions of if, while and for had no location"),
    "do not sleep": ("C16", "time.sleep got a negative time when a deadline passed between two clock readings"),
    "unachieve drops the goal": ("C17", "unachieve of a goal that waits for its subgoal left the subgoal running and an empty intention that ended the run early"),
    "unachieve does not drop": ("C17", "unachieve g dropped the running reaction to the belief +g"),
    "derive only valid": ("C19", "names such as 1a, -, or with other scripts gave agents names that are no atoms"),
    ".concat accepts": ("C20", ".concat([1|[2]], [3], X) gave a string"),
    ".member accepts": ("C20", ".member(X, [1|T]) with T bound failed with a python exception"),
    ".concat writes": ("C20", '.concat("", true, X) gave "True"'),
    ".findall and .sum": ("C20", ".findall(X + 1, p(X), L) evaluated the pattern before X was bound"),
    "print a negative": ("C06", "(-1) ** 2 printed as -1 ** 2"),
    "a fractional power": ("C25", "(-1) ** 0.5 gave a complex number (also C06, C09)"),
    "locate the error about": ("C10", "the error about an unclosed {begin ...} had no location"),
    "beliefs with unbound": ("C10", "p(X). was reported as implicit rule, but failed the load"),
    "detect include cycles through": ("C11", "a cycle through a symbolic link recursed until the file name was too long"),
    "report source files": ("C11", "an included file with undecodable bytes ended with UnicodeDecodeError"),
    "schedules stop after": ("C23", "end=0 was taken for no end; Graph.degree of an unknown node added it to nodes()"),
    "read a told plan": ("C18", "tellHow dropped or accepted malformed text, ignored errors, constants and custom actions; texts in variables did not work"),
    "interactive statements are validated": ("C26", "typing (-1). or [1]. at the prompt ended the session with AttributeError"),
    "show every kind of condition": ("C30", ".dump and .control_flow ended with AttributeError for a rule or context with not (p & q), and showed constants and actions as objects"),
    "let agents be created": ("C28", "an agent created by an action while Environment.run goes through the agents ended the run with RuntimeError (dictionary changed size)"),
    "format critical": ("C31", "formatting a message of level critical raised AttributeError (Fore.Reset)"),
    "optimize programs with": ("C22", "the optimizer raised AttributeError (AstPlan.annotations) for every program with a plan, and for linked lists and for loops"),
    "optimize conditions": ("C22", "always true or false conditions: missing else branch raised, inlined formulas were reversed, solutions of disjunctions and side effects were lost, X = 0 with 1 / X failed the load"),
    "do not optimize away": ("C22", "unifications that later formulas depend on were removed or replaced by stale values (X = f(Y); Y = 1; bindings made in branches, loops, actions and goals)"),
    "optimize calls and": ("C22", "-p(X) became -p(_), and X = 1; -+p(X) replaced only p(1), which changed the events"),
    "answer askHow": ("C18", "askHow sent only the last plan of each trigger, unreadable contexts and bodies, consumed the owner's plan (IndexError the second time), matched names by substring, raised TypeError for unknown plans"),
}
out = ["# KNOWN-FINDING lines to be printed by the checks are the lines that start with 'finding:'; none at present.",
       "# fixed: property=<id> <commit> <what failed>"]
log = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout
for l in log.splitlines():
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    m = [v for k, v in MAP.items() if s[5:].startswith(k)]
    assert len(m) == 1, (s, m)
    out.append("fixed: property=%s %s %s" % (m[0][0], h, m[0][1]))
open("/verif/known-findings.txt", "w").write("\n".join(out) + "\n")
