"""Writes /verif/properties.jsonl."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe="", hook=False):
    d = {"id": id, "title": title, "statement": statement,
         "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
         "anchors": {"files": files,
                     "mechanism": [{"name": n, "where": w} for n, w in mech]}}
    if state:
        d["anchors"]["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe:
        d["anchors"]["observe_at"] = [observe]
    d["anchors"]["hook_needed"] = None
    assert len(title) <= 80, title
    P.append(d)


T = "agentspeak/__init__.py"
R = "agentspeak/runtime.py"
PA = "agentspeak/parser.py"
L = "agentspeak/lexer.py"
S = "agentspeak/stdlib.py"
X = "agentspeak/ext_stdlib.py"

p("C01", "Unification succeeds exactly when two terms can be made equal",
  "Unifying two terms succeeds exactly when some assignment of their variables makes them the same term (numbers compare by value, true and false are never equal to numbers, a list written [H|T] agrees with the same plain list), and the outcome does not depend on the order of the two terms. On success every variable denotes its most general value; a wildcard agrees with anything and binds nothing. Previously made bindings are respected and never changed.",
  ["inputs"], "All pairs of terms (numbers, booleans, strings, atoms, literals, plain and linked lists, shared variables, wildcards) and all prior bindings.",
  "tests/test_terms.py samples about a dozen pairs; agreement, generality and symmetry are claims about every pair of terms, including repeated variables and linked lists against plain lists.",
  [T], [("unify dispatch", "agentspeak.unify"), ("Var.unify/bind", "agentspeak.Var"),
        ("Literal.unify", "agentspeak.Literal.unify"), ("LinkedList.unify", "agentspeak.LinkedList.unify")],
  [("scope", "variable bindings of an intention"), ("stack", "binding trail")],
  "result of unify and the values of the variables afterwards")

p("C02", "Backtracking undoes exactly the bindings made since the choice point",
  "Whenever an alternative is abandoned or all solutions of a query, unification, rule or backtracking action are exhausted, every variable is left exactly as it was before: bindings made for that alternative are gone and all bindings made earlier are intact. Each solution delivered is therefore independent of the solutions tried before it.",
  ["inputs", "programs"], "All prior binding states and all queries/unifications, whether they succeed zero, one or many times and however many solutions the consumer takes.",
  "Tests check final results of a few queries; a leaked or lost binding shows only for particular combinations of earlier bindings and later alternatives.",
  [T, R, S], [("choice points", "agentspeak.reroll"), ("annotated unification", "agentspeak.unify_annotated, Literal.unify_annotated"),
              ("query evaluation", "agentspeak.runtime.TermQuery/NotQuery/AndQuery/OrQuery.execute"),
              ("backtracking actions", "agentspeak.stdlib .member .substring .range .findall .count")],
  [("scope", "bindings"), ("stack", "trail with choice points")], "bindings before, between and after solutions")

p("C03", "Annotated matching: each required annotation is found in the other literal",
  "A literal with annotations matches another exactly when their functor and arguments unify and the required annotations (left side) can be matched with distinct annotations of the other literal (extra ones there are allowed); for annotations without variables this is exactly the subset relation. A literal without annotations matches regardless of the other's annotations, and a failed match leaves no binding behind.",
  ["inputs"], "All pairs of literals with up to the bounded number of annotations and any arguments.",
  "test_terms.py checks nine fixed pairs; the subset relation must hold for every pair and every order in which annotations happen to be stored.",
  [T], [("annotation matching", "agentspeak.Literal.unify_annotated"), ("entry points", "agentspeak.unify_annotated, unifies_annotated")],
  [], "solutions of annotated unification")

p("C04", "Snapshots of terms are complete, faithful and independent of later bindings",
  "Taking a snapshot of a term replaces every bound variable by its value and every evaluable expression by its result, and replaces each unbound variable consistently by a fresh one (same variable, same replacement; different variables, different replacements), so later bindings or backtracking never change the snapshot. A term counts as ground exactly when it contains no unbound variable or wildcard, and asking for the ground form succeeds exactly then and gives the same value as the snapshot, otherwise it is reported as an AgentSpeak error.",
  ["inputs"], "All terms (nested literals, annotations, lists, expressions) under all binding states, including chains of variables.",
  "No test covers snapshots directly; sharing of variables and chains of bindings need systematic coverage.",
  [T], [("freeze", "agentspeak.freeze and the freeze methods"), ("grounded", "agentspeak.grounded"), ("is_ground", "agentspeak.is_ground"), ("deref/evaluate", "agentspeak.deref, agentspeak.evaluate")],
  [], "freeze, grounded and is_ground")

p("C05", "Equality, hashing and ordering of terms are consistent",
  "Equality of ground terms is an equivalence that agrees with unification (an integer equals the same number as a decimal, [H|T] equals the same plain list, literals are equal when functor, arguments and annotations are), and equal terms hash equally. On comparable terms (numbers, strings, atoms, lists, literals of the same signature and without annotations) exactly one of less, equal, greater holds, the order is transitive and is lexicographic on arguments and list elements, and <=, >= are consistent with it; other literal pairs are reported as not comparable rather than ordered arbitrarily.",
  ["inputs"], "All pairs and triples of ground terms within the bound.",
  "One .asl test orders a handful of literals; equivalence, hash agreement and total-order laws quantify over all pairs and triples.",
  [T], [("Literal comparison", "agentspeak.Literal.__eq__/__lt__/__hash__"), ("LinkedList comparison", "agentspeak.LinkedList.__eq__/__lt__/__hash__")],
  [], "==, !=, <, <=, >, >= and hash of terms; .sort, .min, .max")

p("C06", "Printed terms and programs read back as what was printed",
  "The printed representation of any ground term (numbers, booleans, strings with any characters, atoms, literals with annotations, nested plain and linked lists) parses back to an equal term, and a string constant denotes exactly the characters written between the quotes with escapes decoded. Printing a parsed rule, goal, condition, plan or whole program and parsing the result gives a program of identical structure, and printing again gives the same text.",
  ["inputs", "programs"], "All ground terms, all string contents (every Unicode character) and all parsed programs within the bound.",
  "test_parse_string samples two ASCII strings and no test re-parses printed programs; escapes, quotes, control and non-ASCII characters need every character class.",
  [T, PA, L], [("term printing", "agentspeak.asl_repr and asl_repr methods"), ("string constants", "agentspeak.parse_string"), ("program printing", "agentspeak.parser Ast*.__str__")],
  [], "asl_repr, str of parsed programs, then parsing again")

p("C07", "Tokenising loses nothing and classifies every word correctly",
  "Every character of the source ends up in exactly one token, in white space, in a comment or in a reported illegal character, in order, and each token's recorded line and columns point at exactly its text. Words are split as the language defines: keywords only when they stand alone (a longer word starting with a keyword is an ordinary name), the longest operator wins, numbers, variables, names and strings are recognised as such, // and # comments end with the line and block comments end at the first closing mark, possibly lines later.",
  ["inputs"], "All character sequences within the length bound over the language's alphabet.",
  "The parser tests exercise valid programs only; the claim covers every character sequence, in particular adjacent tokens, prefixes of keywords and malformed input.",
  [L], [("tokenizer", "agentspeak.lexer.tokenize"), ("token patterns", "agentspeak.lexer.TokenType")],
  [], "the token sequence (text, classification, location) and reported errors")

p("C08", "Expressions are parsed with the documented precedence and associativity",
  "From weakest to strongest binding: |, &, not, comparisons and =, + and -, * / div mod, unary minus and plus, **; binary operators of one level group to the left (** to the right), unary operators apply to the nearest operand with ** binding tighter than a unary sign on its left and accepting a signed exponent on its right, and parentheses override. A chain of comparisons a op1 b op2 c means (a op1 b) & (b op2 c). Text that is not an expression of this grammar is rejected with a reported error, never accepted with parts dropped.",
  ["inputs", "programs"], "All token sequences within the length bound in a condition or argument position.",
  "test_parser.py checks a few fixed expressions; grouping must be right for every combination of operators.",
  [PA], [("expression parser", "agentspeak.parser.parse_term ... parse_atom")],
  [], "parsed structure of rules, conditions and arguments")

p("C09", "Constant folding never changes what a program means",
  "Replacing constant sub-expressions at load time yields the same value the expression would have at run time, in every position where expressions may occur, and leaves all non-constant parts of the program unchanged. A constant expression that can never be evaluated (type error or division by zero) is reported at load time as an error, or left for run time, but never silently replaced by some value and never crashes the loader.",
  ["inputs", "programs"], "All expression trees within the bound over numbers, booleans, strings, lists and variables, with every operator.",
  "Existing tests evaluate a handful of constant expressions; equality with the unfolded meaning concerns all operand values, including zero divisors and mixed types.",
  [PA, T], [("folding visitors", "agentspeak.parser NumericFoldVisitor/BooleanFoldVisitor/TermFoldVisitor/LogicalFoldVisitor/ConstFoldVisitor")],
  [], "values computed by programs; reported load errors")

p("C10", "Loading any source text yields a program or a reported error",
  "Loading any text as an agent program either produces an agent or ends with one of the library's own errors (syntax errors with a located message); it never fails with a foreign exception and never hangs. An agent is never produced from text for which an error was reported, and warnings alone never prevent loading.",
  ["inputs", "programs"], "All token sequences and character sequences within the bounds, valid or malformed, at top level, in plan heads, bodies and directives.",
  "Tests load valid programs and three malformed ones; totality is a claim about every input.",
  [PA, L, R], [("program parser", "agentspeak.parser.parse/parse_agent/validate"), ("error log", "agentspeak.Log"), ("agent construction", "agentspeak.runtime.Environment.build_agent")],
  [], "outcome of Environment.build_agent")

p("C11", "Include directives splice each file exactly as written and detect cycles",
  "An include directive contributes exactly the included program's beliefs, rules, goals and plans, in the order written and relative to the including file's directory, at any nesting. A file that includes itself directly or through others, however the paths are spelled, is reported as an error instead of recursing forever, a missing file is reported, and errors inside an included file are reported and make loading fail; including the same file twice without a cycle is allowed.",
  ["configurations", "programs"], "All include graphs over the bounded number of files, with every placement of includes and spelling of paths.",
  "No test uses include directives.",
  [PA], [("include handling", "agentspeak.parser.parse_agent")], [], "the loaded program and reported errors")

p("C12", "The belief base behaves as a set of ground facts under every update sequence",
  "After any sequence of belief additions, removals, replacements and .abolish calls the belief base holds exactly the facts a mathematical set would: adding is idempotent, removing takes out one matching fact and fails nothing when none matches, replacing removes one fact of the same name and arity that agrees with the new one except at evaluable positions and adds the new one, abolishing removes all facts matching the pattern and only those. Queries see exactly the current facts, facts differing in value, argument count or annotations are kept apart, and only ground facts are ever stored.",
  ["histories", "inputs"], "All bounded sequences of updates and queries with arbitrary values, arities and annotations.",
  "The .asl tests run a few fixed update sequences; set behaviour must hold after every history.",
  [R, S, T], [("updates", "agentspeak.runtime.Agent.add_belief/remove_belief/call"), (".abolish", "agentspeak.stdlib._abolish"), ("replacement", "agentspeak.runtime.BuildReplacePatternVisitor")],
  [("beliefs", "agent's facts by functor and arity")], "queries and the agent's belief base")

p("C13", "Queries deliver exactly the logical consequences of beliefs and rules",
  "A query yields one solution for every way its condition follows from current beliefs and rules, no others, and each solution binds the query's variables accordingly; beliefs are consulted before rules and rules in program order. & combines solutions of both sides with the right side seeing the left side's bindings, | yields the left solutions and then the right ones, not succeeds exactly when its operand has no solution and binds nothing, comparisons test values. Rule variables are private to each use of the rule, including recursive use.",
  ["programs", "inputs"], "All bounded conditions built from facts, rules (also recursive), comparisons, unification, &, | and not, over all fact values.",
  "family.asl and a few others test fixed conditions; soundness and completeness concern every condition and fact base.",
  [R], [("queries", "agentspeak.runtime TermQuery/AndQuery/OrQuery/NotQuery/UnifyQuery"), ("rules", "agentspeak.runtime.Rule")],
  [], "solutions delivered to plan contexts, conditions, test goals and .findall")

p("C14", "Events run the first applicable plan, and subgoals return their bindings",
  "For every event the agent runs the first plan in program order whose trigger matches and whose context holds, with the variables bound by that match; an achievement goal with no applicable plan is an error, other events without applicable plans are ignored and a test goal then falls back to the belief base. A subgoal's plan runs to completion before its caller continues, and on completion the caller's variables receive exactly the values the subgoal produced, while variables of different plans and of different runs of one plan never interfere. A goal posted with !! runs as a separate intention without suspending the poster.",
  ["programs", "inputs"], "All bounded plan libraries (trigger, context and argument patterns) and goal arguments, including unbound arguments returned by nested subgoals.",
  "Fixed .asl programs exercise one path each; selection and binding return must be right for all combinations of applicable plans and arguments.",
  [R], [("plan selection", "agentspeak.runtime.Agent.call"), ("execution and return", "agentspeak.runtime.Agent.step")],
  [("intentions", "stacks of running plans")], "sequence of executed actions and variable values")

p("C15", "Plan bodies execute with structured control flow semantics",
  "A plan body executes its steps in order; if runs the first branch exactly when its condition has a solution (with that solution's bindings) and otherwise the else branch if present; while repeats its body as long as its condition has a solution, undoing each iteration's bindings; for runs its body once for every solution of its generator. Loops and branches may be nested and sequenced arbitrarily, including empty bodies and bodies ending in a loop or branch, and after each construct execution continues with the next step and never skips or repeats any.",
  ["programs", "inputs"], "All bounded nestings of if/else, while, for and plain steps, with arbitrary condition outcomes and iteration counts.",
  "Four .asl tests cover particular nestings; the compiled jump structure must be right for every nesting and every outcome.",
  [R, PA], [("body compilation", "agentspeak.runtime.BuildInstructionsVisitor"), ("body parsing", "agentspeak.parser.parse_body and friends"), ("execution", "agentspeak.runtime.Agent.step")],
  [], "order of executed actions and variable values")

p("C16", "Scheduling is fair, waits end on time, and the run ends exactly when idle",
  "Agents take turns, each advancing its first intention that can proceed by one step, an intention waiting for a time or an event resumes when that event occurs or its time has passed and never before, and its remaining steps then execute; other intentions and agents are unaffected by it. The environment finishes exactly when no agent has anything left to do, otherwise it sleeps until the earliest deadline, and whatever the clock does between two readings it never asks to sleep for a negative time, never misses a deadline and never ends with work outstanding.",
  ["schedules", "histories", "inputs"], "All bounded sets of intentions and agents, wait durations, event timings and clock readings (any non-decreasing sequence of instants).",
  "wait.asl runs one wait in real time; clock races and interactions of several waiting intentions cannot be sampled by it.",
  [R, S], [("stepping", "agentspeak.runtime.Agent.step"), ("event loop", "agentspeak.runtime.Environment.run/run_agent"), ("waiting", "agentspeak.stdlib._wait, agentspeak.runtime.Waiter, shortest_deadline")],
  [("waiter", "what a suspended intention waits for"), ("clock", "Environment.time")], "executed actions over time, sleeps requested, termination")

p("C17", "Messages reach exactly the addressed agents, once, with sender and content",
  "Sending delivers the message exactly once to each named receiver, and broadcasting exactly once to every agent except the sender: tell adds and untell removes the belief, achieve posts the goal, unachieve drops it, each carrying a source annotation naming the sender, while an unknown performative is an error. The content is delivered with the sender's variable values at the time of sending, without sharing variables with it, and neither the receiver's reactions nor later bindings affect the sender's variables.",
  ["inputs", "histories", "configurations"], "All bounded agent sets, receiver lists (atoms, strings, lists), performatives and message terms.",
  "The communication examples are not part of the tests; routing and isolation concern every receiver set and message.",
  [S, R], [(".send/.broadcast", "agentspeak.stdlib._send/_broadcast"), ("delivery", "agentspeak.runtime.Agent.call/_unachieve")],
  [], "belief bases and executed actions of all agents")

p("C18", "Plans exchanged between agents keep their meaning",
  "A plan told to another agent as text behaves there exactly as if it had been part of that agent's program; asking an agent for a plan adds to the asker plans that behave like the owner's, any number of times and without changing the owner, and telling an agent to forget a label removes exactly its plans carrying that label. Malformed plan text and requests for unknown plans are reported as AgentSpeak errors and change no agent's plans.",
  ["programs", "histories"], "All bounded plans (trigger, argument patterns, context, body, label) and sequences of tellHow, askHow and untellHow.",
  "Only the examples exercise these performatives and no test checks the transferred plan.",
  [R, S], [("plan exchange", "agentspeak.runtime.Agent._tell_how/_ask_how/_untell_how, plan_to_str"), (".send", "agentspeak.stdlib._send")],
  [("plans", "plan library of an agent")], "behaviour of the receiving and the owning agent afterwards")

p("C19", "Agents are isolated and get unique valid names",
  "Every agent created in an environment gets its own name, distinct from all others and usable as a name in programs, derived from the requested name or source name. Agents built from the same program, one at a time or many at once, start with the same beliefs, rules, plans and goals and share no mutable state: whatever one agent does to its beliefs, plans or intentions is never visible in another.",
  ["configurations", "histories", "inputs"], "All requested names (every character), numbers of agents and bounded update histories of one agent.",
  "No test builds several agents from one program or checks odd source names.",
  [R, T], [("construction", "agentspeak.runtime.Environment.build_agent/build_agents/build_agent_from_ast"), ("naming", "agentspeak.runtime.Environment._make_name, agentspeak.sanitize_functor")],
  [("agents", "environment's agents by name")], "agent names, belief bases, plans and executed actions")

p("C20", "Library actions compute what they document for all arguments",
  "The list, string and aggregation actions (.concat, .length, .nth, .member, .sort, .min, .max, .substring, .range, .findall, .count, .sum, .tail, .floor, .ceil, .round, .my_name, .date, .time, .ground and the type tests) give the mathematically defined result for every argument, with linked and plain lists treated alike, enumerate all solutions in order when they have several, and succeed with a result argument already given exactly when it equals the computed result. They have no other effect on beliefs or variables.",
  ["inputs"], "All argument values within the size bounds, bound and unbound result arguments.",
  "Three stdlib tests and a few .asl files sample single calls.",
  [S, X, T], [("actions", "agentspeak.stdlib, agentspeak.ext_stdlib"), ("argument passing", "agentspeak._zip_specs")],
  [], "solutions of action calls")

p("C21", "Registered Python actions are found and called with the right arguments",
  "An action call runs the implementation registered for exactly that name and number of arguments if there is one, otherwise the variadic one, each looked up first in the program's own collection and then in its parents; an unregistered name is treated as a belief query with a warning. Function-style actions receive the current values of their arguments converted to the declared types plus agent or environment where requested, their result is unified with the last argument, predicates and procedures take exactly the declared number of arguments, and registering the same name and arity twice is refused.",
  ["configurations", "inputs"], "All bounded registries (exact, variadic, nested), signatures with typed parameters and argument values.",
  "No test registers custom actions.",
  [T, R], [("registry", "agentspeak.Actions"), ("conversion", "agentspeak._zip_specs"), ("binding to calls", "agentspeak.runtime.BuildQueryVisitor.visit_literal")],
  [], "which Python function is called with what, and the resulting bindings")

p("C22", "The optimizer preserves program behaviour",
  "An agent built with the optional optimizer (optimizer.build_agent_optimized) behaves as the agent built without it: for every program whose run without the optimizer ends without an error, where the actions declare their effects correctly, the optimized program is accepted, runs without an error, too, calls the same actions in the same order with the same values, and ends with the same beliefs.",
  ["programs", "inputs"], "All bounded programs of unifications, conditions, loops, branches, calls and updates over symbolic constants.",
  "No test builds an agent with the optimizer.",
  ["agentspeak/optimizer.py"], [("optimizer passes", "agentspeak.optimizer")], [], "executed actions with and without optimization")

p("C23", "Simulation schedules fire exactly at their due ticks and graphs count edges",
  "A schedule runs each registered callback exactly at the ticks its start, interval and end define (start tick, then every interval ticks, not before start nor after end), in registration order, across any division of the run into calls. The graph's nodes, edge weights and degrees (numbers of distinct neighbours) equal those of the graph defined by the edge increments made so far, and asking for them changes nothing. A random choice yields one of the items offered, each of them being possible, and nothing only if there are none.",
  ["inputs", "histories"], "All bounded starts, intervals, ends, numbers of ticks and sequences of edge updates.",
  "The simulation helpers have no tests.",
  ["simse/helper.py"], [("Schedule.run", "simse.helper.Schedule"), ("Graph", "simse.helper.Graph")], [], "callback times, degrees and weights")

p("C24", "A failing step never lets its plan continue, and is reported",
  "When a step of a plan fails (a failing action or condition, a missing plan, an ill-typed operation, a Python exception in an action) the steps after it in that plan and in the plans waiting for it are not executed, and the failure is reported as an aggregated error located at the failing step. Removing a belief that does not exist, adding one that already exists and conditions of if, while and for that do not hold are not failures.",
  ["programs", "inputs"], "All bounded plan bodies, positions of the failing step and kinds of failure.",
  "Tests run programs that succeed; the crash programs in tests/asl/crashes are not executed.",
  [R, T], [("step", "agentspeak.runtime.Agent.step"), ("errors", "agentspeak.AslError, agentspeak.Log, agentspeak.AggregatedError")],
  [], "executed actions and raised errors")

p("C25", "Arithmetic and comparisons evaluate to their mathematical meaning",
  "An expression evaluates to the value its operators define over its operands' current values: + - * / div mod ** on numbers (div and mod round toward negative infinity), comparisons on equally comparable values, not, & and | on booleans. Applying an operator to operands of the wrong type or to an unbound variable is an AgentSpeak error rather than a silently coerced value, and truth values are never treated as numbers or numbers as truth values.",
  ["inputs"], "All bounded expression trees and operand values of every type.",
  "arithmetic.asl evaluates a handful of fixed expressions.",
  [T], [("evaluation", "agentspeak.BinaryExpr/UnaryExpr.evaluate"), ("operators", "agentspeak.BinaryOp/UnaryOp")],
  [], "values of expressions in conditions, arguments and goals")

p("C26", "Interactive statements behave like the steps of a plan",
  "Statements typed at the interactive prompt, on one line or split over several, are each run exactly once, in order and as soon as they are complete, with the effect the same steps have in a plan, and all share one set of variables; those bound to constants are shown with their values. Text that is no statement and statements that fail are reported as errors; such text has no effect, what earlier statements did and bound is kept, and the session goes on. A program started from the command line ends with status 1 exactly when loading or running it is reported as an error.",
  ["sessions", "inputs"], "All bounded sequences of statements and rejected texts, ways of splitting them into lines and values in them; all bounded programs and values deciding whether they fail.",
  "The prompt and the command line have no tests.",
  [R], [("prompt", "agentspeak.runtime.repl, agentspeak.runtime.dump_variables"), ("command line", "agentspeak.runtime.main")],
  [], "executed actions, reported errors, prompts and exit status")

p("C27", "Output actions write the current values of their arguments",
  "Every call of .print writes exactly one line, with the name of the agent and the arguments' values at the time of the call in order, and every call of .csv one line to the file of the agent that calls it. Within a line an unbound variable looks the same wherever it occurs and differs from other variables; writing binds nothing. Lines of different agents are never mixed up, also if the agents come from one program.",
  ["programs", "inputs"], "All bounded argument lists with symbolic values and ways of binding their variables; several agents writing in turns.",
  "Tests do not look at what programs print.",
  ["agentspeak/stdlib.py", "agentspeak/ext_stdlib.py"], [(".print", "agentspeak.stdlib._print"), (".csv", "agentspeak.ext_stdlib._csv"), ("text of values", "agentspeak.asl_str, agentspeak.freeze")],
  [], "the lines written")

p("C28", "Agents driven from Python behave as if driven by their own plans",
  "Beliefs added, removed or tested and goals posted or dropped through the Python interface (Agent.add_belief, remove_belief, test_belief and Agent.call with any trigger), before, between and during runs, have the effect the same step of a plan of the agent would have at that point (the silent methods raise no events), tell whether they applied, and hand over the Python terms with the values they have then, sharing no variables. An agent that has nothing left to do can be given new work and run again, and Agent.run, Environment.run_agent, Environment.run and repeated Agent.step do the same work in the same order. Agents created while the environment runs (by actions, or between steps) take part in the run and leave the others as they are; a program that cannot be loaded creates none.",
  ["histories", "inputs"], "All bounded sequences of operations and runs with symbolic values; all kinds of terms.",
  "Tests build programs and run them once.",
  [R], [("operations", "agentspeak.runtime.Agent.call, add_belief, remove_belief, test_belief"), ("runs", "agentspeak.runtime.Agent.step, Agent.run, Environment.run_agent, Environment.run")],
  [], "executed actions, beliefs and returned values")

p("C29", "Programs are parsed into exactly the statements that are written",
  "A source text that follows the grammar is read as exactly the statements written in it, in order: each belief, rule, initial goal and plan once, each plan with its label, trigger (addition or removal of a belief, achievement or test goal), context and steps, each step with its kind (!, !!, ?, +, -, -+, expression, if with its own else, while, for) and nested as its braces say; steps are separated by semicolons, which may be left out after a closing brace and may follow the last step of a block. Everything else is rejected with a reported error: missing or superfluous punctuation, incomplete statements, unbalanced begin and end, tokens that start no statement.",
  ["inputs", "programs"], "All bounded texts: every kind of statement and step with arbitrary punctuation between its parts, and with any of its tokens replaced, inserted, removed or moved.",
  "The parser tests cover a few valid programs and no rejected ones; an accepted malformed text or a misplaced step shows only for particular neighbours.",
  [PA, L], [("statements", "agentspeak.parser.parse_agent, parse_rule_or_belief, parse_initial_goal, parse_plan, parse_event"),
            ("steps", "agentspeak.parser.parse_plan_body, parse_body, parse_body_formula, parse_while, parse_for, parse_if_then_else")],
  [], "the parsed agent (agentspeak.parser.parse) and reported errors")

p("C30", "Debugging actions show the agent's state and leave it unchanged",
  "Asking an agent to show itself (.dump, .control_flow, Agent.dump) at any point of any plan, context or rule succeeds and changes nothing of what the agent does afterwards. .dump shows each belief exactly once, each rule, and each plan's trigger, head and context, in a form that reads back as the same belief or, up to the names of variables, as the same condition with the same grouping. .unbind_all leaves every variable of the running plan unbound and changes nothing else: beliefs, other plans and the loops of the plan go on as before.",
  ["programs", "inputs"], "All bounded beliefs, rules, contexts and points of a plan.",
  "Tests run .dump on one small program and do not look at what it shows.",
  [R, S], [("listing", "agentspeak.runtime.Agent.dump"), ("text of conditions", "agentspeak.runtime.TermQuery/AndQuery/OrQuery/NotQuery/UnifyQuery/ActionQuery.__str__"), ("actions", "agentspeak.stdlib._dump, _control_flow, _unbind_all")],
  [], "the lines shown, executed actions and beliefs")

p("C31", "Diagnostics point at the offending text",
  "The first error reported for a text that is not a program is located at the first token (or illegal character) with which the text stops being the beginning of any program, or at its last token if it ends too early, with the file, line, columns and text of that line; an unclosed directive is located at its begin. A formatted message starts with file, line and column of its location and its level, and shows the source line with ^ exactly under the main location and ~ exactly under the secondary locations on the same line, whatever blanks and tabs stand before them. The summary counts exactly the errors and warnings reported, and reading stops at the configured number of errors.",
  ["inputs"], "All bounded malformed programs; all columns, lines and levels within the bound; all sequences of messages.",
  "Tests neither look at locations nor at the text of diagnostics.",
  [PA, L, T], [("locations of errors", "agentspeak.parser.parse_agent and the parse_* functions, agentspeak.lexer.tokenize"), ("excerpt", "agentspeak.LogFormatter.formatMessage"), ("counting", "agentspeak.Log, agentspeak.AggregatedError")],
  [], "log records, formatted messages and AggregatedError")

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P))
