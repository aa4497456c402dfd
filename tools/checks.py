NA={}
c("C01","bounded exhaustive enumeration of operator trees and explicit-state search over reached values, against an independent reference interpreter",
  "Every expression tree up to the bound with every operand assignment is evaluated by the real parser and evaluator and compared with a reference model; complete within the bounds reported in the evidence, nothing is claimed for deeper expressions or other operand values.")
c("C02","bounded exhaustive enumeration of comparison chains and boolean expressions against a reference model",
  "All pairs of the value alphabet and all boolean/comparison expressions up to the bound; complete within the bounds in the evidence.")
c("C03","bounded exhaustive enumeration of string, list, null and CASE expressions against a reference model",
  "All operands of the alphabets (strings, lists, indexes, bounds) for each operator and nesting; complete within the bounds in the evidence.")
c("C04","bounded exhaustive enumeration of function arguments, arities and nestings against a reference model",
  "Every function with every argument tuple of the alphabets; complete within the bounds in the evidence, nothing is claimed for longer strings or lists.")
c("C20","bounded exhaustive enumeration of calendar inputs and explicit-state search over reached moments, against an independent calendar model",
  "Every day of the listed years, every duration of the alphabet, all pairs of moments; complete within the bounds in the evidence, nothing is claimed for other years or local clock times that a zone skips.")
c("C09","bounded exhaustive enumeration of graphs, creation orders and patterns; the real matcher against an independent backtracking model",
  "All graphs up to isomorphism within the bounds, all creation orders, all patterns of the families; nothing is claimed for larger graphs or longer patterns.")
c("C10","bounded exhaustive enumeration of clause combinations and graphs; the real evaluator against an independent backtracking join",
  "All arrangements of up to three patterns of the alphabet, all WHERE conditions, all graphs within the bounds; complete within the bounds in the evidence.")
c("C11","bounded exhaustive enumeration of RETURN clauses and row sequences against an independent projection model",
  "All combinations of the projection, DISTINCT, ORDER BY, SKIP and LIMIT alphabets on all row sequences within the bounds; complete within the bounds in the evidence.")
c("C12","bounded exhaustive enumeration of unions and graphs against an independent model of row combination",
  "All unions of the query alphabets up to the length bound; complete within the bounds in the evidence.")
c("C13","bounded exhaustive enumeration of CREATE clauses, row sequences and graphs against an independent model of the graph",
  "All CREATE patterns of the alphabet after all reading clauses on all graphs within the bounds, by isomorphism of the resulting graphs; nothing is claimed for larger graphs or patterns.")
c("C14","bounded exhaustive enumeration of SET and REMOVE clauses and graphs against an independent model of the graph",
  "All SET and REMOVE items and pairs of items of the alphabets on all graphs within the bounds; complete within the bounds in the evidence.")
c("C15","bounded exhaustive enumeration of DELETE clauses, graphs and creation orders against an independent model of the graph",
  "All DELETE clauses of the alphabet on all graphs and creation orders within the bounds; complete within the bounds in the evidence.")
c("C16","bounded exhaustive enumeration of MERGE sequences, row orders and graphs against an independent model of the graph",
  "All MERGE patterns with all actions, in sequences of up to two clauses and two evaluations, on all graphs within the bounds; where the order of rows matters any order is accepted.")
c("C05","bounded exhaustive enumeration of literal texts, names and layouts of queries through the real lexer, parser and evaluator against an independent reading of the text",
  "All number and string texts over the alphabets up to the bound, all escaped names, and for every listed query every single gap, keyword spelling and parenthesisation of the families; nothing is claimed for longer texts or other queries.")
c("C22","bounded exhaustive enumeration of values, native inputs and result sets of the public API against an independent model of value identity",
  "All pairs and triples of the value alphabet, all native kinds at their boundary values, all unions and products of small result sets; complete within the bounds in the evidence.")
c("C21","bounded exhaustive enumeration of pattern expressions, graphs and starting nodes; the real search against an independent backtracking matcher",
  "All pattern expressions of the families from every node of all graphs within the bounds, one parsed expression for all of them; nothing is claimed for larger graphs or longer patterns.")
c("C06","bounded exhaustive enumeration of token sequences, mutations of queries, nestings and byte strings through the real parser, against an independent recogniser that interprets the published grammar",
  "All token sequences up to the bound in the listed surroundings and all listed mutations of the corpus; complete within the bounds in the evidence, nothing is claimed for other texts. Promptness is judged only where the nesting is not ambiguous.")
c("C17","bounded exhaustive enumeration of read queries, graphs and index configurations with full observation of the real graph, and of all update histories up to a depth with indexes added at every point, against a reference graph",
  "All reading queries of the alphabets on all graphs of the family under all index configurations, and all histories within the bounds; indexed values are integers or text, nothing is claimed for indexes of mixed types (known findings).")
c("C18","explicit-state search: all histories of updating queries up to a depth, and breadth-first search of the reached graphs up to isomorphism, every transition replayed on the real graph and compared with a reference graph",
  "Every transition is executed on the real implementation from its full history; complete within the bounds in the evidence, except that nothing is created after the newest node was deleted (known finding of the dependency).")
c("C19","explicit-state search over trees of contexts: all sequences of operations up to a depth, executed on the real contexts and graph and compared with a model of scoping after every operation",
  "All sequences of the operations within the bounds; every variable and parameter is read in every context after every operation.")
c("C07","bounded exhaustive enumeration of constructs and operand kinds: every expression and clause combination of the grammar families is evaluated on every combination of operands in the real implementation, with monitoring for crashes, hangs, missing outcomes and unusable graphs",
  "All combinations within the bounds in the evidence, each executed in the real implementation; values that contain themselves are a known finding of the dependency.")
c("C08","bounded exhaustive enumeration of sequences of evaluations of one parsed expression or query over changing assignments, rows, graphs, contexts and functions in the real implementation, compared with freshly parsed copies and with the reference",
  "All sequences of two evaluations after every first one, for all constructs and templates within the bounds in the evidence.")

c("C23","bounded exhaustive fault injection: every position of a failing call in every construct, failing at each of its successive evaluations in the real evaluator, with the recorded calls compared with the reference and the query evaluated again afterwards",
  "All positions and all failing calls within the bounds in the evidence; an operand that the result does not depend on may be skipped.")
c("C24","stateless exploration of the real code under a controlled scheduler: all interleavings at statement granularity up to a preemption bound, with the race detector watching the schedules",
  "All schedules with up to one preemption (two for a part of the jobs) of the jobs in the evidence; preemption is between statements of the package, calls of the graph library and of the parser runtime run without preemption.")
