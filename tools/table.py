TESTS = "The 10 existing unit tests only %s; none of them quantifies over interactions, traces or configurations."
T0 = TESTS % "check a few literal values (mostly loader helpers and single examples)"
ORACLE = ("exhaustive enumeration of a bounded universe of interaction terms; the real code is run on every one and compared with "
          "word sets computed by an independent denotational model")
TRUST = ("Exhaustive within the bounds printed in the evidence (number of leaves, lifelines, messages, loops and word length); trusts the "
         "denotational oracle in mc/src/lang.rs. ")
SYN = ("exhaustive enumeration of a bounded universe of documents (terms, traces, layouts, spellings, single-token edits); the real reader or writer is run "
       "on every one and compared with an independent reference reader")
MANIP = ("exhaustive enumeration of a bounded universe of multi-traces and options; the real tool is run on every one and the files it generates are "
         "compared with the definition")

PROPS = [
 dict(id="S01", title="Executable steps are exactly the derivatives of the trace language",
  statement="For every interaction, the set of actions offered for immediate execution is exactly the set of first actions of the traces it specifies, and the interactions left after executing an action specify together exactly the continuations of that action. An interaction reports that it accepts the empty trace exactly when the empty trace belongs to its language.",
  over=["inputs", "histories"], quant="all interactions (every operator and nesting up to the bound) and all sequences of executed actions",
  tests=T0, files=["src/core/execution/semantics/frontier.rs", "src/core/execution/semantics/execute.rs"],
  mech=[("frontier computation", "core/execution/semantics/frontier.rs"), ("execution of an action at a position", "core/execution/semantics/execute.rs"), ("acceptance of the empty trace", "core/language/syntax/interaction.rs: express_empty"), ("pruning of the left siblings", "core/language/prune/interaction.rs")],
  bin="sem", technique=ORACLE, note=TRUST + "Derivatives are checked recursively, so every state reachable by execution within the word bound is compared."),
 dict(id="S02", title="Synchronized composition executes exactly the synchronized traces",
  statement="Executing an interaction whose parts are composed by synchronization on a set of actions yields exactly the traces in which both parts perform the synchronized actions together and all other actions independently.",
  over=["inputs", "histories"], quant="all interactions with the synchronization operator up to the bound, all sets of synchronized actions",
  tests=T0, files=["src/core/execution/semantics/frontier.rs", "src/core/execution/semantics/execute.rs"],
  mech=[("pairing of frontier elements of both operands", "core/execution/semantics/frontier.rs"), ("execution at a pair of positions", "core/execution/semantics/execute.rs")],
  bin="sem", technique=ORACLE, note=TRUST + "Covers synchronization at the root and nested below other operators; synchronization under a weakly sequenced right operand is covered within the same bounds."),
 dict(id="S03", title="Pruning keeps exactly the traces that avoid the pruned lifelines",
  statement="An interaction can avoid a set of lifelines exactly when it has a trace without any action on them; the pruned interaction specifies exactly those traces. Pruning with bookkeeping gives the same interaction and reports every lifeline on which the behaviour may have changed.",
  over=["inputs"], quant="all interactions up to the bound and all subsets of lifelines",
  tests=T0, files=["src/core/language/prune/interaction.rs", "src/core/language/avoid/implem.rs", "src/core/language/involve/interaction.rs"],
  mech=[("avoidance", "core/language/avoid/implem.rs"), ("pruning", "core/language/prune/interaction.rs")],
  bin="sem", technique=ORACLE, note=TRUST),
 dict(id="S04", title="Tracking affected lifelines never changes what executing an action yields",
  statement="Executing an action gives the same remaining interaction whether or not the affected lifelines are collected, whatever position it is executed at. Every lifeline whose local behaviour changed is among the collected ones.",
  over=["inputs"], quant="all interactions up to the bound, all executable actions, all variants of the execution function",
  tests=T0, files=["src/core/execution/semantics/execute.rs", "src/core/language/prune/interaction.rs"],
  mech=[("execution with or without collection of affected lifelines", "core/execution/semantics/execute.rs")],
  bin="sem", technique=ORACLE, note=TRUST),
 dict(id="S05", title="Removing lifelines from an interaction is exactly projection",
  statement="Removing a set of lifelines from an interaction yields an interaction whose multi-traces are exactly those of the original one with the components of the removed lifelines erased.",
  over=["inputs"], quant="all interactions up to the bound and all subsets of lifelines",
  tests=T0, files=["src/core/language/eliminate_lf/interaction.rs", "src/core/language/eliminate_lf/action.rs"],
  mech=[("elimination of lifelines", "core/language/eliminate_lf/interaction.rs")],
  bin="sem", technique=ORACLE, note=TRUST + "For terms with loops or co-regions that tie removed and kept lifelines the comparison is on local views per lifeline."),
 dict(id="T01", title="Every rewriting step preserves the specified traces",
  statement="Whatever rewriting rule of the canonization engine is applied, at whatever position, the rewritten interaction specifies exactly the same traces as the original one.",
  over=["inputs"], quant="all interactions up to the bound, all rules, all positions",
  tests=T0, files=["src/core/transformation/get_transfos/get_all_transfos.rs", "src/core/transformation/get_transfos/get_one_transfo.rs", "src/core/transformation/transfofunc/mod.rs"],
  mech=[("rewriting rules", "core/transformation/transfofunc/"), ("rule application at positions", "core/transformation/get_transfos/")],
  bin="transfo", technique=ORACLE, note=TRUST),
 dict(id="T02", title="Canonization terminates and preserves the specified traces",
  statement="The canonization process terminates on every interaction, and every interaction it visits, its result included, specifies exactly the traces of the input. Exploring one transformation per step or all of them leads to trace-equivalent results.",
  over=["inputs", "schedules"], quant="all interactions up to the bound, all rewriting orders followed by the process",
  tests=T0, files=["src/process/canon/handling/handler.rs", "src/core/transformation/transfophase.rs", "src/process/canon/param/default.rs"],
  mech=[("phases of the canonization process", "core/transformation/transfophase.rs"), ("process handler", "process/canon/handling/handler.rs")],
  bin="transfo", technique=ORACLE, note=TRUST),
 dict(id="T03", title="The order on interactions is a total order compatible with equality",
  statement="The comparison used to sort alternatives and parallel branches is reflexive, antisymmetric and transitive, and two interactions compare equal exactly when they are equal.",
  over=["inputs"], quant="all pairs and triples of interactions up to the bound",
  tests=T0, files=["src/core/language/ord/interaction.rs", "src/core/language/ord/action.rs"],
  mech=[("comparison", "core/language/ord/interaction.rs")],
  bin="transfo", technique="exhaustive enumeration of all pairs and triples of a bounded universe of interaction terms", note="Exhaustive over pairs and triples of the universe given in the evidence."),
 dict(id="E01", title="Exploration enumerates exactly the specified traces",
  statement="The words labelling the paths of an exploration are exactly the prefixes of the traces specified by the interaction, and those ending in accepting nodes are exactly the traces. This holds with and without memoization.",
  over=["inputs", "schedules", "histories"], quant="all interactions up to the bound, search strategies, memoization on or off",
  tests=T0, files=["src/process/explo/handling/handler.rs", "src/process/explo/node.rs", "src/process/explo/step.rs"],
  mech=[("generation of the steps of a node", "process/explo/handling/handler.rs"), ("node equality for memoization", "process/explo/node.rs")],
  bin="explo", technique=ORACLE + "; the exploration graph is recorded by a logger and its paths are compared as word sets", note=TRUST),
 dict(id="E02", title="Exploration filters cut exactly what they bound",
  statement="A bound on the depth keeps exactly the paths up to that length, a bound on loop instantiations keeps exactly the paths that enter loops at most that often, and a bound on nodes creates no more nodes than stated and only cuts when it is reached.",
  over=["inputs", "configurations"], quant="all interactions up to the bound and all filter values up to the bound",
  tests=T0, files=["src/process/explo/filter/filter.rs", "src/process/explo/handling/handler.rs"],
  mech=[("filter criteria", "process/explo/filter/filter.rs"), ("loop depth of a frontier element", "core/execution/semantics/frontier.rs")],
  bin="explo", technique=ORACLE, note=TRUST + "Loop instantiations are counted by a costed variant of the oracle."),
 dict(id="E03", title="Search order and priorities never change what is explored",
  statement="Whatever the search strategy, the priorities, the memoization option and the random shuffles, the exploration covers the same set of traces and gives the same accepting ones. Steps are dequeued in the order announced by the strategy and the priorities.",
  over=["inputs", "schedules", "configurations"], quant="all interactions up to the bound, all strategies, priorities and all outcomes of the random shuffles",
  tests=T0, files=["src/process/explo/priorities.rs", "src/process/explo/handling/handler.rs"],
  mech=[("priority of a step", "process/explo/priorities.rs")],
  bin="explo", technique="exhaustive enumeration of interaction terms, strategies, priorities and of every outcome of the random shuffles (controlled random source)", note=TRUST + "The random source is replaced by one whose every outcome is enumerated."),
 dict(id="E04", title="Deadlock and acceptance verdicts of explorations are right",
  statement="A terminal node is declared accepting exactly when the empty trace is accepted there and deadlocked otherwise, and the global verdict reports a deadlock exactly when one was met.",
  over=["inputs", "histories"], quant="all interactions up to the bound (including contradictory synchronizations) and all nodes reached",
  tests=T0, files=["src/process/explo/handling/handler.rs", "src/process/explo/verdict/global.rs", "src/process/explo/verdict/local.rs"],
  mech=[("local verdicts", "process/explo/handling/handler.rs"), ("global verdict", "process/explo/verdict/global.rs")],
  bin="explo", technique=ORACLE, note=TRUST),
 dict(id="E05", title="Generated trace files are exactly the selected traces of the model",
  statement="The trace files written during an exploration are, once read back, exactly the accepted (or all, or terminal, as selected) traces of the interaction, projected on the requested co-localizations.",
  over=["inputs", "configurations"], quant="all interactions up to the bound, all generation modes and co-localizations",
  tests=T0, files=["src/loggers/tracegen/printer.rs", "src/loggers/tracegen/object.rs", "src/io/output/to_hfiles/trace/to_htf.rs"],
  mech=[("projection of steps on co-localizations", "loggers/tracegen/object.rs"), ("writing of trace files", "io/output/to_hfiles/trace/")],
  bin="explo", technique=ORACLE + "; files written by the real logger in a scratch folder are parsed back", note=TRUST),
 dict(id="A01", title="Accept analysis recognises exactly the accepted multi-traces",
  statement="With the accept analysis kind, for every interaction, co-localization and multi-trace, the verdict is Pass exactly when the multi-trace is the projection of a specified trace, and Fail otherwise.",
  over=["inputs", "histories"], quant="all interactions up to the bound, all partitions of the lifelines, all multi-traces over the alphabets of the components up to the length bound",
  tests=T0, files=["src/process/ana/handling/handler.rs", "src/process/ana/handling/matches.rs", "src/process/ana/verdict/global.rs"],
  mech=[("matching of steps against the multi-trace", "process/ana/handling/"), ("local and global verdicts", "process/ana/verdict/")],
  bin="ana", technique=ORACLE, note=TRUST + "Multi-traces of at most 3 (4 in thorough) actions; the default options and those of the command line."),
 dict(id="A02", title="Prefix analysis verdicts are right for every multi-trace",
  statement="With the prefix analysis kind, Pass is given exactly to the accepted multi-traces and WeakPass only to projections of prefixes of specified traces, all of which get at least WeakPass. Fail is never given to a multi-trace whose components are prefixes of those of one specified trace, and is always given when a fully observed trace is not a prefix. Anything else is inconclusive.",
  over=["inputs", "histories"], quant="all interactions up to the bound, all partitions of the lifelines, all multi-traces over the alphabets of the components up to the length bound",
  tests=T0, files=["src/process/ana/handling/handler.rs", "src/process/ana/handling/local_analysis.rs", "src/process/ana/verdict/local.rs"],
  mech=[("verdict of terminal nodes", "process/ana/handling/handler.rs"), ("local analysis", "process/ana/handling/")],
  bin="ana", technique=ORACLE, note=TRUST + "Multi-traces of at most 3 (4 in thorough) actions; with and without local analysis."),
 dict(id="A03", title="Lifeline elimination recognises exactly the partial observations",
  statement="With the eliminate analysis kind and one lifeline per component, a multi-trace gets Pass or WeakPass exactly when its components are prefixes of those of one specified trace, whenever each stopped being observed, and Fail otherwise. Pass implies acceptance after removal of the components that ended.",
  over=["inputs", "histories"], quant="all interactions up to the bound, all partitions of the lifelines, all multi-traces over the alphabets of the components up to the length bound",
  tests=T0, files=["src/process/ana/handling/handler.rs", "src/core/language/eliminate_lf/interaction.rs"],
  mech=[("elimination of components no longer observed", "process/ana/handling/handler.rs"), ("elimination of lifelines", "core/language/eliminate_lf/interaction.rs")],
  bin="ana", technique=ORACLE, note=TRUST + "Coarser co-localizations are only checked for the absence of false Fail verdicts; co-regions over operands that order several lifelines are only checked one way."),
 dict(id="A04", title="Simulation fills in unobserved actions exactly within its budget",
  statement="With the simulate analysis kind, a multi-trace gets Pass or WeakPass exactly when it can be completed into (the projection of a prefix of) a specified trace by unobserved actions at the end (or also at the beginning, as configured) of its components, within the budget of actions and loops. Accepted multi-traces always get Pass and no configuration crashes. Each step in which no component observes anything costs one action and the loops it enters, the budget never exceeds its configured value for the remaining interaction and observation, and it is reset after an observation when configured so.",
  over=["inputs", "histories", "configurations"], quant="all interactions up to the bound, all partitions of the lifelines, all multi-traces up to the length bound, all combinations of simulation criteria",
  tests=T0, files=["src/process/ana/handling/handler.rs", "src/process/ana/node/flags.rs", "src/process/ana/param/anakind.rs"],
  mech=[("budget of simulated actions and loops", "process/ana/node/flags.rs"), ("simulation steps", "process/ana/handling/handler.rs"), ("criteria", "process/ana/param/anakind.rs")],
  bin="ana", technique=ORACLE, note=TRUST + "Verdicts are compared for every configuration with an independent explicit-state model of budgeted simulation over the steps of the real semantics (itself checked by S01), and with the denotational oracle."),
 dict(id="A05", title="Search and optimisation options never change the analysis verdict",
  statement="Whatever the search strategy, the priorities, memoization, partial order reduction and local analysis (any depth, frequency or selection of lifelines), a multi-trace gets the same verdict as with plain options. Local analysis and partial order reduction may only settle an inconclusive verdict, and only truthfully.",
  over=["inputs", "schedules", "configurations"], quant="all interactions and multi-traces up to the bound, all combinations of the options",
  tests=T0, files=["src/process/ana/handling/handler.rs", "src/process/ana/node/node.rs", "src/process/ana/priorities.rs"],
  mech=[("partial order reduction", "process/ana/handling/handler.rs"), ("node equality for memoization", "process/ana/node/"), ("priorities", "process/ana/priorities.rs"), ("local analysis", "process/ana/handling/")],
  bin="ana", technique=ORACLE + "; verdicts of all option combinations are compared with each other and with the oracle", note=TRUST + "Partial order reduction is not checked with the synchronous operator, for which it is documented as incomplete."),
 dict(id="A06", title="Bounds on the analysis never produce wrong definite verdicts",
  statement="With any bound on depth, loop instantiations or nodes, an analysis that was cut never gives a Fail to an accepted or possible observation nor a Pass to one that is not, and creates no more nodes than stated. Without memoization, acceptance and prefix analyses explore exactly the paths within the bounds on depth and on loop instances summed along the path.",
  over=["inputs", "configurations"], quant="all interactions and multi-traces up to the bound, all filter values up to the bound, all analysis kinds",
  tests=T0, files=["src/process/ana/filter/filter.rs", "src/process/ana/filter/elim.rs", "src/process/ana/handling/handler.rs"],
  mech=[("filters", "process/ana/filter/"), ("verdict after elimination by a filter", "process/ana/verdict/")],
  bin="ana", technique=ORACLE, note=TRUST),
 dict(id="A07", title="Stopping at a goal verdict never changes whether the goal is met",
  statement="An analysis that stops as soon as a goal verdict is reached reports a verdict at least as good as the goal exactly when the complete analysis does, and the complete verdict otherwise. It never creates more nodes than the complete analysis.",
  over=["inputs", "schedules", "configurations"], quant="all interactions and multi-traces up to the bound, all goals, kinds and search strategies",
  tests=T0, files=["src/process/ana/verdict/global.rs", "src/process/ana/handling/handler.rs"],
  mech=[("update of the global verdict and goal test", "process/ana/verdict/global.rs")],
  bin="ana", technique=ORACLE, note=TRUST),
 dict(id="N01", title="The automaton built by exploring an interaction recognises its traces",
  statement="The automaton obtained by exploring an interaction recognises exactly the traces of the interaction when its loops are strict ones; with other loops (whose iterations are bounded) it recognises only traces of the interaction. Every letter on a transition belongs to the alphabet, the automaton does not depend on letters added to the alphabet, and determinizing and minimizing it keep the recognised words.",
  over=["inputs"], quant="all interactions up to the bound and all words up to the bound",
  tests=T0, files=["src/nfa_translation/get_nfa_from_logger.rs", "src/nfa_translation/alphabet.rs", "src/process/explo/loggers/nfait/printer.rs"],
  mech=[("translation by exploration", "nfa_translation/get_nfa_from_logger.rs"), ("transitions recorded during exploration", "process/explo/loggers/nfait/"), ("indices of letters", "nfa_translation/alphabet.rs")],
  bin="nfa", technique=ORACLE + "; every word up to the bound is run through the automaton", note=TRUST + "For non-strict loops, without alternatives, the words of at most two iterations per loop must also be recognised."),
 dict(id="N02", title="The compositional translation agrees with exploration and the traces",
  statement="On interactions it supports (weak sequencing of plain actions only, strict loops, alternatives, interleavings, strict sequencing), the automaton composed from those of the parts recognises exactly the specified traces. Every automaton the comparison experiment derives from it or from the explored one recognises the same words, and both minimal deterministic automata have as many states.",
  over=["inputs"], quant="all interactions of the fragment up to the bound and all words up to the bound",
  tests=T0, files=["src/nfa_translation/compositional.rs", "src/nfa_translation/experiments.rs"],
  mech=[("composition of automata", "nfa_translation/compositional.rs"), ("experiment", "nfa_translation/experiments.rs")],
  bin="nfa", technique=ORACLE + "; every word up to the bound is run through each automaton", note=TRUST + "Interactions out of the supported fragment are not claimed."),
 dict(id="N03", title="Automaton-based trace analysis re-enacts exactly the specified prefixes",
  statement="The nfa_analyze command reports that it re-enacted a globally observed trace without deviations exactly when the trace is a prefix of one the interaction specifies (below a synchronization operator, one it can execute), whatever letters the trace has, and otherwise that it failed. It never crashes.",
  over=["inputs"], quant="all interactions up to the bound and all traces whose proper prefixes are specified ones, over the letters of the interaction and foreign ones",
  tests=T0, files=["src/ui/commands/cli_nfa_ana.rs", "src/nfa_translation/alphabet.rs", "src/nfa_translation/get_nfa_from_logger.rs"],
  mech=[("re-enactment", "ui/commands/cli_nfa_ana.rs"), ("indices of letters", "nfa_translation/alphabet.rs")], observe=["the verdict line printed by the command line tool"],
  bin="nfa", technique=ORACLE + "; the command line tool is run as a process on every trace", note=TRUST + "Non-strict loops only with traces of at most two actions."),
 dict(id="I01", title="A written interaction is read back as the same interaction",
  statement="Whatever interaction is written to an interaction file, reading that file with the same signature gives back the same interaction, up to the grouping of nested applications of one associative operator. This holds whatever the declared names are, including names that look like operators.",
  over=["inputs"], quant="all interactions of every kind of action and operator up to the bound, with several families of names",
  tests=T0, files=["src/io/output/to_hfiles/interaction/to_hif.rs", "src/io/input/hif/parser.rs", "src/io/input/hif/hif_syntax.pest"],
  mech=[("writer of interactions", "io/output/to_hfiles/interaction/"), ("reader of interactions", "io/input/hif/")],
  bin="io", technique=SYN, note=TRUST + "Interactions that have no concrete syntax are out of scope."),
 dict(id="I02", title="Interaction files are read as the interaction they denote",
  statement="Every well-formed interaction text is accepted and read as the interaction it denotes: any number of operands, any layout of blanks and comments, any declared names, targets, origins and gates in any order.",
  over=["inputs"], quant="all interaction texts of terms up to the bound, with every layout and several families of names",
  tests=T0, files=["src/io/input/hif/parser.rs", "src/io/input/hif/hif_syntax.pest", "src/io/input/hif/interface.rs"],
  mech=[("grammar of interactions", "io/input/hif/hif_syntax.pest"), ("construction of terms", "io/input/hif/")],
  bin="io", technique=SYN, note=TRUST),
 dict(id="I03", title="A written multi-trace is read back as the same multi-trace",
  statement="Whatever multi-trace is written to a trace file, reading that file with the same signature gives back the same components, in the same order, with the same sequences of sets of actions; lifelines the file does not mention become components of their own without actions.",
  over=["inputs"], quant="all ordered partitions of the lifelines, complete or not, and all multi-traces on them up to the bound",
  tests=T0, files=["src/io/output/to_hfiles/trace/to_htf.rs", "src/io/output/to_hfiles/trace/multi_trace.rs", "src/io/input/htf/interface.rs"],
  mech=[("writer of multi-traces", "io/output/to_hfiles/trace/"), ("reader of multi-traces", "io/input/htf/")],
  bin="io", technique=SYN, note=TRUST),
 dict(id="I04", title="Trace files are read as the multi-trace they denote or rejected",
  statement="A trace file that is well formed and consistent is read as the multi-trace it denotes (components given as lists, `#all` or `#any`, or left out). A file that is malformed, uses unknown names, puts a lifeline in several components or an action out of its component is rejected with one of the errors it contains, and never crashes the reader.",
  over=["inputs"], quant="all trace texts of at most three components up to the bound and all their single-token edits, with every layout",
  tests=T0, files=["src/io/input/htf/interface.rs", "src/io/input/htf/implem.rs", "src/io/input/htf/htf_syntax.pest"],
  mech=[("co-localizations", "io/input/htf/"), ("grammar of multi-traces", "io/input/htf/htf_syntax.pest")],
  bin="io", technique=SYN, note=TRUST),
 dict(id="I05", title="Malformed interaction files are rejected, never crash or misread",
  statement="For every text near an interaction, the reader accepts it exactly when it is in the language of interaction files and then reads the interaction it denotes; otherwise it reports one of the errors the text contains (syntax, undeclared names, inconsistent communications).",
  over=["inputs"], quant="all single-token edits of all interaction texts up to the bound",
  tests=T0, files=["src/io/input/hif/parser.rs", "src/io/input/hif/hif_syntax.pest", "src/io/input/error.rs"],
  mech=[("grammar of interactions", "io/input/hif/hif_syntax.pest"), ("errors", "io/input/error.rs")],
  bin="io", technique=SYN, note=TRUST),
 dict(id="I06", title="Signature files declare exactly the names written in them",
  statement="A well-formed signature declares exactly the messages, lifelines and gates listed in it, in that order, whatever the order of its sections and its layout. Duplicated names within a section and malformed texts are rejected with an error and never crash the reader.",
  over=["inputs"], quant="all signatures up to the bound and all their single-token edits, with every layout",
  tests=T0, files=["src/io/input/hsf/interface.rs", "src/io/input/hsf/hsf_syntax.pest", "src/core/general_context.rs"],
  mech=[("reader of signatures", "io/input/hsf/"), ("context", "core/general_context.rs")],
  bin="io", technique=SYN, note=TRUST),
 dict(id="I07", title="Configuration files set exactly the options they mention",
  statement="For each command, its section of the configuration file sets exactly the options it mentions to the values given, whatever their spelling, order and layout, and all others keep their documented defaults (trace generation turns memoization off); sections of other commands have no influence. Options that do not exist or are malformed or unsupported give an error and never crash the reader.",
  over=["inputs", "configurations"], quant="all spellings of all options, their pairs (triples in thorough) and all their single-token edits, for every command",
  tests=T0, files=["src/io/input/hcf/ana/options.rs", "src/io/input/hcf/explo/options.rs", "src/io/input/hcf/hcf_syntax.pest", "src/io/input/hcf/loggers/tracegen.rs"],
  mech=[("options of the analysis", "io/input/hcf/ana/"), ("options of the exploration", "io/input/hcf/explo/"), ("options of canonization", "io/input/hcf/canon/"), ("loggers", "io/input/hcf/loggers/")],
  bin="io", technique=SYN, note=TRUST + "Integers beyond 32 bits are out of scope."),
 dict(id="M01", title="Exhaustive slicing generates every slice of a multi-trace once",
  statement="Exhaustive slicing writes, in files numbered from one, each combination of prefixes (or suffixes, or contiguous slices) of the components exactly once and nothing else, on the same components. Options of the command select the kind, folder and names of the files.",
  over=["inputs", "configurations"], quant="all ordered partitions of the lifelines, all lengths of components up to the bound, distinct, equal and composite letters, all kinds and options",
  tests=T0, files=["src/trace_manip/slice/exhaustive.rs", "src/trace_manip/slice/generate.rs", "src/util/slicer.rs", "src/ui/commands/cli_slice.rs"],
  mech=[("enumeration of slices", "trace_manip/slice/exhaustive.rs"), ("windows", "util/slicer.rs"), ("command", "ui/commands/cli_slice.rs")],
  observe=["the files generated by the slice command and the multi-traces in them"],
  bin="manip", technique=MANIP, note=TRUST),
 dict(id="M02", title="Random slicing only generates slices of the kind asked for",
  statement="However the random decisions turn out, random slicing writes at least one and at most the requested number of files, all holding slices of the requested kind of each component, pairwise different selections, and for wide slices at least a third of each component. It always terminates, and as many slices as exist can be obtained.",
  over=["inputs", "schedules", "configurations"], quant="all sequences of random decisions, for all multi-traces up to the bound, all kinds and numbers of slices up to two",
  tests=T0, files=["src/trace_manip/slice/random.rs", "src/ui/commands/cli_slice.rs"],
  mech=[("random cuts", "trace_manip/slice/random.rs")],
  observe=["the files generated by random slicing and the multi-traces in them"],
  bin="manip", technique=MANIP + "; the random number generator is replaced by a controller that enumerates every sequence of decisions", note=TRUST),
 dict(id="M03", title="Mutants differ from their multi-trace exactly as their kind says",
  statement="However the random decisions turn out, noise insertion adds exactly the requested number of single actions of the component's lifelines (at most one per component, at the end, as asked), removal only removes at most so many letters, swapping only exchanges letters within components, and crossing takes whole components from the other multi-trace but never all. Every such modification can occur, and the mutant is written on the same components where the options say.",
  over=["inputs", "schedules", "configurations"], quant="all sequences of random decisions up to the decision bound, for all multi-traces up to the bound and numbers of modifications up to two",
  tests=T0, files=["src/trace_manip/mutate/insert_noise.rs", "src/trace_manip/mutate/remove_actions.rs", "src/trace_manip/mutate/swap_actions.rs", "src/trace_manip/mutate/swap_component.rs"],
  mech=[("insertion of noise", "trace_manip/mutate/insert_noise.rs"), ("removal", "trace_manip/mutate/remove_actions.rs"), ("exchanges within components", "trace_manip/mutate/swap_actions.rs"), ("exchange of components", "trace_manip/mutate/swap_component.rs")],
  observe=["the file generated by each mutation command and the multi-trace in it"],
  bin="manip", technique=MANIP + "; the random number generator is replaced by a controller that enumerates every sequence of decisions", note=TRUST + "Runs that retry a random choice more often than the decision bound are cut."),
 dict(id="G01", title="Random interactions are reproducible and stay within their settings",
  statement="However the random decisions turn out, generation of random interactions ends and yields canonical interactions with only declared names, only the operators that have a probability, at least the minimum number of symbols and at most the depth allows. The symbols are chosen with exactly the probabilities given. The command writes distinct readable interactions, the same for the same seed.",
  over=["inputs", "schedules", "configurations"], quant="all sequences of random decisions up to the depth bound, all predefined probabilities, all distributions by quarters, consecutive seeds and all options of the command",
  tests=T0, files=["src/experiments/interaction_random_gen/gen.rs", "src/experiments/interaction_random_gen/probas.rs", "src/ui/commands/cli_rng_gen_interactions.rs"],
  mech=[("generation of terms", "experiments/interaction_random_gen/gen.rs"), ("choice of symbols", "experiments/interaction_random_gen/probas.rs"), ("command", "ui/commands/cli_rng_gen_interactions.rs")],
  observe=["the interactions generated by the library and the files written by rng_gen_interactions"],
  bin="misc", technique="exhaustive enumeration of every sequence of decisions of the random number generator (replaced by a controller, real numbers on a grid) run through the real generator, monitored against the settings", note=TRUST),
 dict(id="G02", title="Metrics are those of the interaction, its automaton and minimal automaton",
  statement="The metrics of an interaction count exactly its symbols, lifelines, actions and nesting depths. The metrics printed for its automaton are the numbers of states and edges of the automaton of its executions, and those for the minimal automaton are the numbers of distinct non-empty residuals of its language and of their derivatives.",
  over=["inputs"], quant="all interactions up to the bound",
  tests=T0, files=["src/core/language/syntax/metrics.rs", "src/ui/commands/cli_get_metrics.rs"],
  mech=[("counting", "core/language/syntax/metrics.rs"), ("command", "ui/commands/cli_get_metrics.rs")],
  observe=["metrics returned by the library and printed by get_metrics"],
  bin="misc", technique=ORACLE + "; automata are minimised independently", note=TRUST + "Minimal automata are compared for interactions without other loops than strict ones."),
 dict(id="P01", title="Exported sequence diagrams denote the interaction",
  statement="The PlantUML sequence diagram exported for an interaction denotes that interaction: the same arrows in the same order, within the same fragments with the name of their operator, with one section per operand.",
  over=["inputs"], quant="all interactions up to the bound, and the command for a part of them",
  tests=T0, files=["src/plantuml/sequence.rs", "src/ui/commands/cli_puml_sd.rs"],
  mech=[("export", "plantuml/sequence.rs"), ("command", "ui/commands/cli_puml_sd.rs")],
  observe=["the text of the exported diagram"],
  bin="misc", technique="exhaustive enumeration of a bounded universe of interaction terms; every exported diagram is parsed back and compared with the diagram of the term", note=TRUST),
 dict(id="C01", title="The analyze command prints the right verdict for its files",
  statement="For every signature, interaction, multi-trace and configuration given as files, the analyze command terminates without a crash and prints the verdict the specified traces justify for the kind of analysis, goal and filters asked for, with the length of the multi-trace. Trace generation along an analysis writes exactly the traces of the interaction that the multi-trace lets it execute.",
  over=["inputs", "configurations"], quant="all interactions up to the bound, all ordered partitions of the lifelines, all multi-traces up to the bound, and fourteen configurations that cover every option",
  tests=T0, files=["src/ui/commands/cli_analyze.rs", "src/ui/hibou_cli.rs", "src/io/input/hcf/ana/options.rs", "src/process/ana/loggers/slog/printer.rs"],
  mech=[("command", "ui/commands/cli_analyze.rs"), ("defaults of the options", "io/input/hcf/ana/options.rs"), ("initial budgets of simulation", "ui/commands/cli_analyze.rs"), ("trace generation", "process/ana/loggers/slog/")],
  observe=["the verdict, length and node count printed by the command", "files written by its loggers"],
  bin="ana", technique=ORACLE + "; the command is run as a process on files", note=TRUST),
 dict(id="C02", title="The explore command writes exactly the traces asked for",
  statement="For every signature, interaction and configuration given as files, the explore command terminates without a crash, prints the number of nodes and writes, for each trace generation logger, in its folder and with its prefix and numbering, exactly the traces of the interaction (accepted, at a depth or every so many steps) cut along its partition, and nothing else.",
  over=["inputs", "configurations"], quant="all interactions up to the bound and configurations that cover every option of the logger",
  tests=T0, files=["src/ui/commands/cli_explore.rs", "src/ui/hibou_cli.rs", "src/io/input/hcf/explo/options.rs", "src/io/input/hcf/loggers/tracegen.rs"],
  mech=[("command", "ui/commands/cli_explore.rs"), ("options", "io/input/hcf/explo/options.rs"), ("options of the logger", "io/input/hcf/loggers/tracegen.rs")],
  observe=["what the command prints", "files written by its loggers"],
  bin="explo", technique=ORACLE + "; the command is run as a process on files", note=TRUST),
 dict(id="C04", title="The automata that glosem writes are those of the interaction",
  statement="For every interaction, the glosem command terminates without a crash and writes an automaton that accepts exactly its executions (within them, when it has other loops than strict ones) and the smallest equivalent deterministic automaton. For each lifeline it writes two equivalent automata, with and without silent transitions, that accept these executions without the actions of that lifeline.",
  over=["inputs"], quant="all interactions up to the bound",
  tests=T0, files=["src/ui/commands/cli_glosem.rs", "src/ui/hibou_cli.rs", "src/nfa_translation/alphabet.rs", "src/nfa_translation/compositional.rs"],
  mech=[("command", "ui/commands/cli_glosem.rs"), ("letters", "nfa_translation/alphabet.rs"), ("automata", "nfa_translation/")],
  observe=["the files of automata the command writes"],
  bin="draw", technique=ORACLE + "; every automaton file is parsed back and explored together with the automaton of the term (exact equivalence)", note=TRUST),
 dict(id="P02", title="Exported state machines are the parts of the lifelines",
  statement="The PlantUML state machines exported for an interaction, one per lifeline, perform exactly the sequences of emissions and receptions that the interaction makes this lifeline perform, where a loop repeats its whole content.",
  over=["inputs"], quant="all interactions without co-regions, synchronization, conjunction or communications of a lifeline with itself up to the bound, and the command for a part of them",
  tests=T0, files=["src/plantuml/automata_product.rs", "src/ui/commands/cli_puml_ap.rs"],
  mech=[("export", "plantuml/automata_product.rs"), ("command", "ui/commands/cli_puml_ap.rs")],
  observe=["the text of the exported state machines"],
  bin="draw", technique="exhaustive enumeration of a bounded universe of interaction terms; every exported machine is parsed into a net whose reachable markings are explored and compared with the language of the lifeline's part", note=TRUST),
 dict(id="P03", title="Drawings of interactions show the interaction",
  statement="For every interaction in which no lifeline sends to itself, the draw command draws as a term exactly the syntax tree, and as a diagram one named line for each lifeline involved and no other, the arrows with their messages from top to bottom, and around them a labelled frame or bracket for each operator, without a crash. Interactions that differ in more than the nesting of an operator, the names of gates, the order of targets or what does nothing have different diagrams, if the labels fit. The drawing is the one asked for, in the file asked for.",
  over=["inputs"], quant="all interactions up to the bound, with short and long names, and the command for a part of them",
  tests=T0, files=["src/io/output/draw_interactions/", "src/ui/commands/cli_draw.rs"],
  mech=[("diagrams", "io/output/draw_interactions/as_sd/"), ("terms", "io/output/draw_interactions/as_term/"), ("command", "ui/commands/cli_draw.rs")],
  observe=["the picture or the graph the command writes"],
  bin="draw", technique="exhaustive enumeration of a bounded universe of interaction terms; every picture is compared with that of an independent renderer, and with the pictures of all other terms", note=TRUST),
 dict(id="C03", title="The canonize command draws the rewriting graph of the interaction",
  statement="For every interaction, the canonize command terminates without a crash and draws exactly the interactions reached by the rewritings of its phases, each once per phase with its own sequence diagram, term and colour, and each rewriting as a step that names the rule and position used. All these interactions have the executions of the first one, a rule rewrites only the operators it is named after, and the number of nodes it prints is theirs.",
  over=["inputs", "configurations"], quant="all interactions up to the bound, for one rewriting at a time and for all of them",
  tests=T0, files=["src/ui/commands/cli_canonize.rs", "src/process/canon/handling/handler.rs", "src/process/canon/loggers/glog/drawer.rs", "src/process/canon/param/default.rs", "src/core/transformation/transfokind.rs"],
  mech=[("command", "ui/commands/cli_canonize.rs"), ("process", "process/canon/"), ("drawing", "process/canon/loggers/glog/"), ("names of the rules", "core/transformation/transfokind.rs")],
  observe=["the graph and pictures the command writes", "the number of nodes it prints"],
  bin="glog", technique=ORACLE + "; an independent exploration of the rewriting relation is walked side by side with the graph read back from the files of the command", note=TRUST),
 dict(id="L01", title="Explorations are drawn as they are",
  statement="The graph drawn of an exploration shows each explored interaction with the sequence diagram or term asked for, a step with its own picture for each action it can execute and no other, leading to the interaction that execution gives, or a mark for each step a filter eliminated, and the verdict of the nodes that accept or are stuck. The legend, direction, format and place of the files are those asked for.",
  over=["inputs", "configurations"], quant="all interactions up to the bound and five configurations that cover every option of the graphic logger",
  tests=T0, files=["src/process/explo/loggers/glog/drawer.rs", "src/io/input/hcf/loggers/graphviz.rs", "src/core/language/position/position.rs"],
  mech=[("drawing of an exploration", "process/explo/loggers/glog/"), ("options", "io/input/hcf/loggers/graphviz.rs"), ("pictures of steps", "io/output/draw_transitions/"), ("names", "core/language/position/position.rs")],
  observe=["the graph and pictures the command writes"],
  bin="glog", technique=ORACLE + "; the graph read back from the files of the command is walked side by side with the transition relation of the interaction", note=TRUST),
 dict(id="L02", title="Analyses are drawn as they are",
  statement="The graph drawn of an analysis has the nodes, steps, local verdicts, eliminated steps, local analyses and global verdict of that analysis and no others, and each node shows its interaction and the part of the multi-trace that remains, each step the action executed, its position and the components that consume or simulate it, or the lifelines eliminated. Each local analysis drawn is, in the same way, that of what remains of one component, and each kind of local verdict has its own colour.",
  over=["inputs", "configurations"], quant="all interactions and ordered partitions up to the bound, multi-traces within one letter of their executions, and five configurations",
  tests=T0, files=["src/process/ana/loggers/glog/drawer.rs", "src/io/output/draw_transitions/draw_firing.rs", "src/io/output/draw_transitions/draw_hiding.rs", "src/io/output/draw_traces/interface.rs"],
  mech=[("drawing of an analysis", "process/ana/loggers/glog/"), ("pictures of steps", "io/output/draw_transitions/"), ("pictures of multi-traces", "io/output/draw_traces/")],
  observe=["the graph and pictures the command writes"],
  bin="glog", technique="exhaustive enumeration of bounded universes of interaction terms and multi-traces; the graph read back from the files of the command is compared, node by node and step by step, with the same analysis run under a recording logger", note=TRUST),
]
NOT_APPLICABLE = []
NOTES = "See DESIGN.md. Generated by tools/gen.py from tools/table.py."
