#!/usr/bin/env python3
"""Writes MANIFEST.json from the table of claimed checks."""
import json, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
TERMS = "abstract interpretation of rustc MIR into value-provenance terms, compared with a reference table"
FLOW = "path- and effect-analysis over rustc MIR (all paths of the serving loop, must-write-once)"
BOOK = "abstract interpretation of rustc MIR of the booking loop into per-iteration transition terms, compared with a reference transition table"
CLIENT = "abstract interpretation of the Clojure client's source, against what the server's MIR writes and reads"
QUERY = "abstract interpretation of the Clojure client's source into terms over unknown amounts, dates and filters, compared with a reference on every path"
CLAIMED = {
    "C01": (FLOW, "Every path of one loop iteration is enumerated over the MIR with all calls into the crate followed; library I/O is modelled by its documented contract."),
    "C02": (TERMS, "The id and jsonrpc members of every response are compared with the request's id on every path; what serde accepts as an id is read off the derived visitor."),
    "C03": (TERMS, "Error codes, their data and the results of all request kinds, by parser state and protocol version, from the merged paths of the serving loop."),
    "C05": ("interprocedural dataflow with path conditions on MIR (engine/), panic-freedom obligations discharged by exclusion of conditions and by facts shown inductively over the booking loop", "Every indexing, unwrap, explicit panic, arithmetic check and process exit reachable while serving. Excluded: failure to write output; memory exhaustion; panics inside the parser library and serde (trusted); inside the booking library only the unsupported booking methods are excluded from reaching it."),
    "C06": (TERMS, "Every JSON member of every directive kind as a term over the parser's accessors; the parser library itself is trusted."),
    "C07": (TERMS, "Each conversion function between two enums of the same kind evaluated for every variant; the wire names written and read for every variant."),
    "C31": (TERMS, "The arguments of the booking call per situation of the request, and every accessor through which the engine reads a posting, cost or price."),
    "C08": (TERMS, "Every JSON member of parser.options as a term over the parser's option accessors."),
    "C09": (TERMS, "Every serialisation body evaluated for names, sources and conditions of members; every generated visitor evaluated for where names lead and what missing ones mean."),
    "C10": ("lint over the typed MIR calls of the library crate, with a use analysis of the results", "Every call and member type of the crate; what the decimal library itself does is trusted, its resolved features are read."),
    "C11": ("type-level query over the generated deserialisation code (the type asked of the reader per member)", "Every free-text member of the objects a request can hold."),
    "C12": (TERMS, "Members written per kind of metadata value, then the reading visitor evaluated on exactly those members in each order."),
    "C29": (BOOK, "Rows of the annotation unfolded into the iterations, conditions and cells that produce them; the running total through its loops; the window through every directive."),
    "C30": (TERMS, "Results of the four services as terms over the request's items; the text of formatted reports piece by piece for first and later items."),
    "C26": (CLIENT, "Requests, answers and members the client sends, reads, converts and specifies, on every path of its loading; the server's side is read off its MIR."),
    "C27": (CLIENT, "Every path of the client's loading: which stage gets whose output, what ends a load, what is printed; what plugin functions do is outside."),
    "C32": (QUERY, "Each filter decided in every order of dates and relation of names; the postings handed on, from directives of every kind under up to two unknown filters."),
    "C33": (QUERY, "Sums as linear forms of unknown amounts, for every pattern of equal and different accounts, currencies and costs of up to three or four postings; longer sequences are folds of the same step."),
    "C34": (QUERY, "Lists of up to three directives of every kind with and without provenance; texts and spans traced to their directive or posting."),
    "C04": ("effect analysis over rustc MIR: reachability of printing functions, use of the output handle, provenance of the log writer", "Every function that can run while serving, the text of every response written, and the subscriber set up by the pod; output by dependencies is not looked for."),
    "C23": (TERMS, "The command executed under each of 16 settings of environment and build, its arguments and its dependencies read as EDN."),
    "C24": ("path- and effect-analysis over rustc MIR (all ends of both programs after each failure)", "Every program run, existence test and Result of both programs followed in its failing case to every end; the runtime's own reports of panics are trusted."),
    "C25": ("path- and effect-analysis over rustc MIR (all ends of the tabulate subcommand)", "What is read, what is parsed and what is written on every way through tabulate; the table's layout by the tabulator library is trusted."),
    "C28": ("dataflow (taint of hash iteration order) over the value-provenance terms of answers and booking run, and control-flow analysis of the booking library's MIR", "Every iteration over a hash table followed to where it is used; calls that can run while serving and read clock, random state, environment or addresses. The parser library and serde are trusted to keep order."),
    "C13": (BOOK, "The pushed entries of every situation of the booking loop against a table of expected booked directives."),
    "C14": (BOOK, "Every way out of each directive's processing that records an error, and the conditions under which a result is returned."),
    "C15": (BOOK, "For each kind of directive, in each combination of open/closed account states: error or no error, and the effect on the account maps."),
    "C16": (BOOK, "Currency conditions of postings and balances decided over all valuations of the atoms they depend on."),
    "C17": (BOOK, "Pass/fail condition, margin term (polynomial normal form), roll-up total and adjustment after failure."),
    "C18": (BOOK, "Pads: the pending pad's life cycle over loop iterations, the generated transaction, and the unused-pad reports."),
    "C19": (BOOK, "Each member of the booked posting as a term over the engine's result and the input posting."),
    "C20": (BOOK, "The method closure handed to the engine and how account and ledger methods get there, over every enum value."),
    "C21": (BOOK, "The arguments of the engine call and the inventory updates made from its result."),
    "C22": (BOOK, "Index and related indexes of the error recorded in every situation, and the server's resolution of them into spans, kinds and contexts."),
}
NA = {}
try:
    from tools.na import NA
except ImportError:
    pass
props = [json.loads(l)["id"] for l in open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"))]
checks = []
for p in props:
    if p in CLAIMED:
        t, n = CLAIMED[p]
        checks.append({"property": p, "quick_cmd": "python3 check.py %s" % p, "thorough_cmd": "python3 check.py %s --thorough" % p,
                       "technique": t, "level": "other", "level_note": n})
na = [{"property": p, "reason": NA.get(p, "no check built yet")} for p in props if p not in CLAIMED]
m = {"version": 1, "setup_cmd": "python3 -m lb.facts", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
