#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the file stays schema-shaped and diffable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SRV = "rust/src/api/server.rs"; RPC = "rust/src/api/json_rpc.rs"; ACC = "rust/src/api/booking/accumulator.rs"
CONV = "rust/src/api/types/parser_type_conversions.rs"; RAW = "rust/src/api/types/raw.rs"; BKD = "rust/src/api/types/booked.rs"
SER = "rust/src/api/types/serializers.rs"; TYP = "rust/src/api/types.rs"; BKG = "rust/src/api/booking.rs"
BTY = "rust/src/api/booking/types.rs"; PODM = "rust/src/bin/limabean-pod/main.rs"; PODE = "rust/src/bin/limabean-pod/errors.rs"
LM = "rust/src/bin/limabean/main.rs"; RUN = "rust/src/bin/limabean/run.rs"; HEALTH = "rust/src/bin/limabean/health.rs"
CLJ = "clj/src/limabean/"
NOTEST = "The two existing tests only call the booking entry point on one three-directive ledger with balance offsets 0.01 and 0.02; "

p("C01", "Every request line gets exactly one response line, in order, until EOF",
  "While serving, the pod reads its standard input one line at a time and answers each line, before reading the next, with exactly one line of output, whatever the line contains (valid, invalid, unknown method, failing request). It keeps serving after a failed request and ends only when the input ends (exit status 0) or cannot be read (non-zero exit status).",
  ["inputs", "histories"], "all sequences of request lines against all ledgers, readable or not",
  NOTEST + "the serve loop and dispatcher are never executed by a test, and the claim is over every request sequence.",
  [SRV], [("serve loop: read_line, n>0 -> dispatch, 0 -> exit(0), Err -> exit(1)", SRV + " Server::serve"), ("every dispatch arm writes one line", SRV + " Server::dispatch and handlers")],
  observe=["stdout of limabean-pod serve"])
p("C02", "Every response carries JSON-RPC version 2.0 and the id of its request",
  "Every response line is an object with jsonrpc \"2.0\" and the id of the request that it answers, for results and for errors alike and for every kind of failure (ledger with syntax errors, booking errors, unreadable ledger, wrong protocol version). The id is null only if the request could not be parsed or had no id.",
  ["inputs", "histories"], "all requests that parse, all methods, all ledger states",
  NOTEST + "no test looks at a response envelope.",
  [SRV, RPC], [("id threaded from the parsed request through every handler to the response constructors", SRV), ("ResultResponse::new / ErrorResponse::new", RPC)],
  observe=["id and jsonrpc members of each response line"])
p("C03", "Each kind of failure is answered with its own error code, success with a result",
  "An unparsable request is answered with error -32700, a protocol version other than 2.0 with -32600, any request against an unreadable ledger with 1, and a request for plugins, directives, options or booking against a ledger with syntax errors with 2 carrying one report per syntax error. Booking errors are answered with 2 when booking the parsed ledger and with 3 (reports indexed by directive) when booking directives supplied by the client, and otherwise the request gets the result of exactly the method it named. Status, report formatting, span resolution and synthetic span creation do not depend on whether the ledger parsed.",
  ["inputs", "histories"], "all requests against all ledger states",
  NOTEST + "error paths of the protocol are not exercised.",
  [SRV, RPC], [("match on (ledger health, method)", SRV + " Server::dispatch"), ("write_error* helpers with ERROR_* constants", SRV), ("method names", RPC + " RequestMethod")],
  observe=["error.code / result of each response"])
p("C04", "While serving, nothing but response lines reaches standard output",
  "No code reachable while serving prints, logs or otherwise writes to standard output except for the response line itself, which is written as one complete line of JSON terminated by a newline. Log output goes only to the configured log file.",
  ["inputs", "configurations"], "all executions of serve, with and without logging enabled",
  NOTEST + "a stray print on a rarely taken path is invisible to them.",
  [SRV, PODM], [("only writeln! of serialised JSON to the response writer", SRV + " write_response/write_error"), ("tracing subscriber bound to a file appender", PODM)],
  observe=["stdout of limabean-pod serve"])
p("C05", "No ledger or request makes the server panic or exit",
  "For every ledger and every request whose amounts stay within the decimal range, the code that parses, converts, books, reports and answers neither panics nor exits the process: every indexing, unwrap, explicit panic and process exit reachable while serving is either impossible to trigger or the documented end of input handling.",
  ["inputs", "histories"], "all ledgers and requests, amounts within the range of the decimal type; allocation failure and broken output pipe excluded",
  NOTEST + "panic sites are all on paths that they never reach.",
  [SRV, ACC, CONV, BKG, BTY], [("validate_account before map access", ACC), ("pad index recorded when the pad and its transaction are pushed", ACC), ("unsupported booking methods replaced before the booking library is called", ACC + " open; " + BKG)],
  observe=["exit status and stderr of limabean-pod serve"])
p("C06", "Parsed directives are reported field by field as written in the ledger",
  "The directives that the server reports are exactly the parser's directives, in the same order, each with its own kind, date, span, tags, links and metadata, and each kind-specific field (account, currency, amount, tolerance, source account, path, comment, event type and description, query name and content, custom type and values, payee, narration, postings with flag, account, units, currency, cost and price) taken from the corresponding part of the ledger entry. A per-unit or total cost or price is reported as what it is, absent parts are reported as absent, and none is defaulted, swapped or dropped.",
  ["inputs"], "all ledgers accepted by the parser",
  NOTEST + "no test converts a parsed ledger to protocol types field by field; a swap of two same-typed fields compiles.",
  [CONV, SRV, RAW], [("From<&parser::X> for raw::X conversions", CONV), ("iterate all parsed directives", SRV + " parser_directives, book")],
  observe=["result of parser.directives"])
p("C07", "Enumerated values keep their identity through every conversion",
  "Booking methods, transaction and posting flags and plugin processing modes convert between parser, protocol and booking-engine representations one to one: each converts to the value of the same meaning, no two are merged and none is replaced by another.",
  ["inputs"], "all values of each enumeration, all conversion directions",
  NOTEST + "they use only the default booking method and the * flag.",
  [CONV, BTY, RAW], [("From<parser::Booking>, from_flag, From<parser::PluginProcessingMode>", CONV), ("From<raw::Booking> for limabean_booking::Booking", BTY)],
  observe=["flag and booking members of directives and options; booking behaviour"])
p("C08", "Ledger options are reported faithfully",
  "Every option that the server reports is the value of the ledger option of the same name: account type names, account names, currencies, titles, tolerances with their per-currency defaults and fallback, booleans, documents, operating currencies, booking method and plugin processing mode. Options that the ledger does not set are reported as unset, and collections are reported in full.",
  ["inputs"], "all ledgers and option settings",
  NOTEST + "no test reads options back.",
  [CONV, RAW], [("From<&parser::Options> for Options", CONV)],
  observe=["result of parser.options"])
p("C09", "What the server sends, it accepts back: wire names are fixed and symmetric",
  "Each directive, posting, cost, price, balance, report, span and metadata member has one fixed kebab-case wire name, which is the same when the server writes it and when the server reads it, and directive kinds are tagged by the member dct. Members that are absent in memory are left out when written and may be left out when read, so that a directive read from parser.directives can be sent unchanged to book.",
  ["inputs", "programs"], "all protocol values, in both directions",
  NOTEST + "nothing is serialised or deserialised by a test.",
  [RAW, BKD, TYP, RPC, SER], [("serde derives and their attributes", RAW + ", " + BKD + ", " + TYP + ", " + RPC), ("hand-written serialisers", SER)],
  observe=["JSON members on the wire"])
p("C10", "Amounts cross the system as exact decimals",
  "No amount, price, cost, tolerance or balance is ever converted to binary floating point or rounded, truncated, rescaled or normalised on its way between the ledger, the protocol and booking, so that value and scale as written are preserved. On the wire amounts are written and read with all of their digits.",
  ["inputs"], "all amounts representable by the decimal type",
  NOTEST + "they look only at whether one error is raised.",
  [CONV, ACC, RAW, BKD, SER, BTY], [("Decimal moved unchanged", CONV + ", " + ACC), ("rust_decimal with arbitrary-precision JSON numbers", "rust/Cargo.toml")],
  observe=["units, per-unit, total, tolerance members on the wire"])
p("C11", "Every free-text member accepts every JSON string in requests",
  "Members of requests that hold free text (payee, narration, flag, comment, path, label, event type and description, query name and content, custom type, metadata strings, report message, reason, labels and annotations, synthetic source name and content) accept any JSON string, including one with escape sequences. A request is never refused because such text contains quotes, backslashes, newlines or non-ASCII escapes.",
  ["inputs"], "all JSON strings in all free-text request members",
  NOTEST + "zero-copy string members that fail on escapes compile and work for all simple strings.",
  [RAW, TYP, SER, RPC], [("Cow<str> members and owning visitors instead of &str", RAW + ", " + TYP + ", " + SER)],
  observe=["response to book / parser.format-errors / parser.create-synthetic-spans requests"])
p("C12", "Metadata values keep their type and content on the wire",
  "Each metadata value is written as an object whose member names its type (string, currency, account, tag, link, date, boolean, number, amount as number with currency, null), with the value of the entry, and is read back from the same members to the same type and value. No type is written under or read from the member of another type.",
  ["inputs"], "all metadata values, both directions",
  NOTEST + "no test has metadata.",
  [SER, CONV, RAW], [("manual Serialize/Deserialize of MetaValue", SER), ("From<&parser::MetaValue>", CONV)],
  observe=["metadata members on the wire"])
p("C13", "Booked output lists every directive once, in order, with its own annotations",
  "When booking succeeds the result contains each input directive exactly once, in input order, of the same kind, with its position in the input, its date, tags, links and metadata and its own content unchanged. The only additional entries are one generated transaction directly after each pad directive, with the date and position of the pad.",
  ["inputs", "histories"], "all directive sequences that book without error",
  NOTEST + "they never look at booked directives.",
  [ACC], [("collect loop pushes one booked directive per input directive, then the pad transaction if any", ACC + " Accumulator::collect, directive")],
  observe=["result of book"])
p("C14", "Booking fails closed: any error means no result, and no error is lost",
  "Booking reports success only if no directive produced an error and no pad was left unused; otherwise it reports failure with every error that was found, each exactly once. An error in one directive does not stop later directives from being checked.",
  ["inputs", "histories"], "all directive sequences",
  NOTEST + "they cover one error of one kind.",
  [ACC, SRV], [("errors accumulated over the whole loop, validate decides on emptiness", ACC + " collect, validate"), ("book handler maps failure to an error response", SRV + " book")],
  observe=["result or error of book"])
p("C15", "Accounts are used only between their open and their close",
  "Postings, balance assertions and pads (on the padded account and on the source account) are accepted only for accounts that are open at that point of the directive sequence. Opening an account twice, reopening a closed account and closing an account that is not open are errors, as is any use before the open or after the close.",
  ["inputs", "histories"], "all sequences of open, close, transaction, balance and pad directives",
  NOTEST + "accounts are always opened once and never closed.",
  [ACC], [("open_accounts / closed_accounts maps and validate_account", ACC)],
  state=[("open accounts", "accounts currently open, with the directive that opened them", ACC), ("closed accounts", "accounts closed, with the directive that closed them", ACC)],
  observe=["errors of book"])
p("C16", "Currency constraints of an account hold for every posting and balance",
  "If an account was opened with a list of currencies then any posting (after interpolation) or balance assertion on that account in another currency is an error related to the open directive, and if it was opened without one then every currency is accepted. A transaction that is refused for its accounts or currencies leaves every account balance unchanged.",
  ["inputs", "histories"], "all ledgers, all combinations of account constraints and posting currencies",
  NOTEST + "constraints are not used by them.",
  [ACC], [("AccountBuilder::validate_currency; validated before updated inventory is stored", ACC + " book, balance")],
  observe=["errors of book"])
p("C17", "A balance assertion passes exactly when within tolerance of the rolled-up total",
  "A balance assertion compares the asserted amount with the sum of the units of its currency over the account and all of its sub-accounts (accounts named by the account followed by a colon), and fails exactly when they differ by more than the tolerance. The tolerance is the explicit one if given, otherwise twice the tolerance multiplier option (default 0.5) times one unit of the last decimal place of the asserted amount, and zero for whole amounts. After a failed assertion the account is adjusted to the asserted amount, so that later assertions are judged independently.",
  ["inputs", "histories"], "all ledgers and balance assertions",
  NOTEST + "they pin two points on the tolerance line for scale 2 and one account without sub-accounts.",
  [ACC], [("effective tolerance, total_rollup_units_for_currency, calculate_balance_margin", ACC + " balance")],
  observe=["errors of book"])
p("C18", "A pad fills exactly the gap found by the next balance assertion, once",
  "A pad makes the next balance assertion on its account succeed by generating a transaction, flagged as padding, of two postings in the asserted currency: the missing amount on the padded account and its negation on the source account, both of which are then reflected in the running balances. A pad applies to the next balance assertion on its account only, and a pad that is followed by another pad, by a balance that needs no adjustment or by no balance at all is an error.",
  ["inputs", "histories"], "all interleavings of pad, balance and other directives over all accounts",
  NOTEST + "no test has a pad.",
  [ACC], [("AccountBuilder.pad set by pad, taken by balance, checked by validate", ACC), ("calculate_balance_pad_postings", ACC)],
  state=[("pending pad", "pad directive waiting for a balance on the account", ACC)],
  observe=["result and errors of book"])
p("C19", "Booked transactions carry the booked postings of the ledger's transaction",
  "A booked transaction has the flag, payee and narration of its input, and for each posting, in order, one entry per cost that the booking engine assigned (or one without cost), each with the posting's position, flag, account, tags, links and metadata and with the units, currency, cost and price that the booking engine computed for that posting.",
  ["inputs", "histories"], "all transactions that book without error",
  NOTEST + "booked postings are not inspected by them.",
  [ACC, "rust/src/api/types/booking_type_conversions.rs"], [("flat_map over interpolated postings zipped with postings", ACC + " book"), ("cur_posting_cost_to_cost; From<&limabean_booking::Price>", ACC)],
  observe=["result of book"])
p("C20", "The booking method in force is the account's, else the ledger's, else strict",
  "Postings to an account are booked with the method given when it was opened, else with the booking method option of the ledger, else with the engine's default, and a method that the engine does not support is replaced by the engine's default before booking. The tolerance used in booking is the one of the ledger's options.",
  ["inputs", "configurations"], "all ledgers, all seven methods at both levels",
  NOTEST + "they set no booking method.",
  [BKG, ACC, BTY], [("default_booking_option", BKG + " book"), ("AccountBuilder.booking", ACC + " open, book")],
  observe=["result of book"])
p("C21", "Each transaction is booked against, and updates, its accounts' running inventory",
  "Every transaction is handed to the booking engine with its own date, all of its postings and the current inventory of each account, and the inventories that the engine returns replace those of exactly the accounts they are returned for. An account without an inventory yet is treated as empty, and a transaction that does not book changes no inventory.",
  ["inputs", "histories"], "all transaction histories",
  NOTEST + "they have a single transaction.",
  [ACC], [("limabean_booking::book call with the inventory lookup closure; loop storing updated_inventory", ACC + " book")],
  state=[("positions", "running inventory per account", ACC)],
  observe=["result and errors of book"])
p("C22", "Reports point at the directive or posting that caused them",
  "Every booking error names the index of the directive being processed (and of the posting for posting-specific account and currency errors), and related indexes are those of the directive that opened, closed or padded the account. When resolved for the parsed ledger, message kind and span are those of the indexed posting or directive, the enclosing transaction is given as context for postings, and reason, related entries and annotation are kept.",
  ["inputs", "histories"], "all erroneous ledgers",
  NOTEST + "they compare the rendered text of one error.",
  [ACC, CONV, TYP], [("ElementIdx built from the loop index", ACC + " collect"), ("resolve_indexed_element", CONV)],
  observe=["error.data of book responses"])
p("C23", "The launcher picks the runtime by documented precedence and passes arguments on",
  "The launcher runs the Clojure sources named by LIMABEAN_CLJ_LOCAL_ROOT if set, else the standalone application named by LIMABEAN_UBERJAR in its environment, else the one configured at build time, else the released application of its own version. In each case all of its command line arguments reach the application unmodified and in order, whatever they are (only a first argument health asks for a check of that runtime instead), and additional dependencies given by LIMABEAN_CLJ_DEPS are included whenever the Clojure tool is used.",
  ["configurations", "inputs"], "all combinations of environment variables and arguments that are Unicode text",
  NOTEST + "the launcher has no tests.",
  [RUN, LM], [("Runtime selection from environment", RUN), ("Command built per runtime", RUN)],
  observe=["command line executed by limabean"])
p("C24", "Failures of the command line tools end with an error and a non-zero status",
  "If the application cannot be started, a required program is missing or too old, or a pod subcommand fails, then the tool says so on standard error and ends with a non-zero exit status. It does not report success or continue with a partial environment.",
  ["inputs", "configurations", "fault_sequences"], "all failure modes of launching, health checks and pod subcommands",
  NOTEST + "the binaries are not run by them.",
  [RUN, HEALTH, LM, PODM, PODE], [("exec error -> exit(1)", RUN), ("health checks exit(1)", HEALTH), ("main result -> eprintln + exit(1)", PODM)],
  observe=["exit status and stderr"])
p("C25", "Tabulate reads one JSON document and prints its table, or fails",
  "The tabulate subcommand reads its standard input to the end as one JSON table specification and prints the rendered table followed by a newline and nothing else on standard output. Input that cannot be read or parsed is an error, never a partial or empty table.",
  ["inputs"], "all inputs",
  NOTEST + "tabulate is not run by them.",
  [PODM], [("tabulate()", PODM)], observe=["stdout and exit status of limabean-pod tabulate"])
p("C26", "Client and server agree on methods, error codes and wire names",
  "Every method that the Clojure client calls is one that the server accepts under the same name, every error code that the client distinguishes is one that the server emits with the same meaning, and the wire names that the client reads or writes in requests, directives and reports are wire names of the server. The client's keyword conversion maps those names without loss.",
  ["programs", "inputs"], "all client calls and all server responses",
  NOTEST + "the two halves are in different languages and never tested together.",
  [CLJ + "adapter/pod.clj", CLJ + "adapter/loader.clj", RPC, RAW, BKD, TYP], [("method strings and codes in pod.clj", CLJ + "adapter/pod.clj"), ("serde names", RPC)],
  observe=["wire traffic between client and pod"])
p("C27", "Plugins run in the declared order and an error at any stage stops the load",
  "Loading a ledger runs the stages in the order parse, raw plugins, booking, booked plugins, each on the output of the previous one, and plugins within a stage run in the order in which the ledger declares them. An error in any stage is reported and no later stage's result is used in its place.",
  ["inputs", "fault_sequences"], "all ledgers and plugin declarations",
  NOTEST + "the Clojure part is not covered by them at all.",
  [CLJ + "adapter/loader.clj", CLJ + "plugins.clj"], [("bind-> pipeline", CLJ + "adapter/loader.clj")], observe=["loaded ledger or error reports"])
p("C28", "Responses are a function of ledger and request history",
  "The same ledger and the same requests give the same response lines in every run: no ordered part of a response (directives, postings, reports, related entries, spans) takes its order from the iteration order of a hash table, from addresses, from the clock or from random state. Unordered sets and maps may be listed in any order.",
  ["inputs", "histories", "schedules"], "all ledgers and requests, all hash seeds",
  NOTEST + "hash order only shows with several entries, and differs per run.",
  [ACC, CONV, SRV], [("vectors for everything that is ordered", ACC), ("unused pads reported in directive order", ACC + " validate")],
  observe=["response lines of two runs"])
p("C29", "Balance failure diagnostics list exactly the relevant postings",
  "The annotation of a failed balance assertion lists the booked postings of the asserted currency to the account and its sub-accounts since the previous assertion on the account, in order, with their date, units, running total and payee or narration. Postings to other accounts or in other currencies are neither listed nor totalled.",
  ["inputs", "histories"], "all ledgers with failing balance assertions",
  NOTEST + "they have a single posting in a single currency.",
  [ACC], [("balance_report over the balance window", ACC + " balance_report")], observe=["annotation and reason of balance errors"])
p("C30", "Span and report services answer for every item requested, in order",
  "Resolving spans, creating synthetic spans and formatting reports handle every item of the request in the order given, produce one answer per item (reports separated by one blank line boundary, each followed by its annotation if it has one), and pass file, line and content positions through unchanged. Errors are formatted as errors and warnings as warnings.",
  ["inputs", "histories"], "all such requests",
  NOTEST + "these services are not called by them.",
  [SRV, CONV], [("parser_resolve_spans, parser_create_synthetic_spans, parser_format_report", SRV), ("impl parser::Report for Report; Span conversions", CONV)],
  observe=["results of parser.resolve-spans, parser.create-synthetic-spans, parser.format-*"])
p("C31", "Client directives are booked exactly as they were sent",
  "When a client supplies directives to book, those directives and no others are booked, in the order sent, and when it supplies none the parsed directives are booked; every field of a posting (account, units, currency, cost and price parts with per-unit and total kept apart, date, label, merge) reaches the booking engine as the corresponding part of the posting. The ledger's options apply in both cases.",
  ["inputs", "histories"], "all book requests",
  NOTEST + "the supplied directives path is used with one literal ledger only.",
  [SRV, BTY], [("choice between params and parsed directives", SRV + " book"), ("PostingSpec / CostSpec / PriceSpec trait impls", BTY)],
  observe=["result of book"])
CNOTEST = "The Clojure client is not covered by the tests at all, and a claim about every ledger and every filter argument cannot be settled by a sample of either."
p("C32", "Queries see exactly the postings that their filters select",
  "Inventory, balances, income statement and journal are made from the postings of the ledger's transactions, all of them and no others, in order, that every given filter selects; balances are further restricted to the ledger's asset and liability accounts with their sub-accounts, the income statement to those of income and expenses. A posting has its own fields and else the date, payee and narration of its transaction. Each filter selects what its name says: dates before, up to, after, from, and from begin (inclusive) to end (exclusive); equal to one of the accounts; equal to one of the accounts or below it at a whole component; equal currency; pattern found anywhere in payee or narration; all, any or none of other filters. A filter rejects what lacks its field, and an argument that is no date is an error.",
  ["inputs"], "all ledgers, filters, filter arguments and combinations of filters", CNOTEST,
  [CLJ + "core/filters.clj", CLJ + "core/xf.clj", "clj/src/limabean.clj", CLJ + "user.clj"],
  [("filters", CLJ + "core/filters.clj"), ("postings, all-of", CLJ + "core/xf.clj"), ("inventory, balances, income-statement, journal", "clj/src/limabean.clj")],
  observe=["postings in inventories and journals"])
p("C33", "Inventories, journals and rollups add up",
  "An inventory lists for each account the sum of units per currency and cost (date, currency, per-unit, label and merge all the same), and nothing whose sum is zero; in accounts booked with method none, positions at cost are kept apart, each account by its own method, which is the one it was opened with, else the ledger's, else strict. A journal has each posting once, in order, with the running total of units per currency over all accounts including that posting. A rollup in a currency has for each account holding it, and for each ancestor, the account's own sum and the total over the account and everything below it; without a currency given it is for the one that most accounts hold, and an empty inventory has an empty rollup.",
  ["inputs", "histories"], "all sequences of postings, amounts and costs", CNOTEST,
  [CLJ + "core/inventory.clj", CLJ + "core/journal.clj", CLJ + "core/rollup.clj", CLJ + "core/registry.clj", "clj/src/limabean.clj"],
  [("build, accumulate, positions", CLJ + "core/inventory.clj"), ("with-bal", CLJ + "core/journal.clj"), ("build", CLJ + "core/rollup.clj"), ("acc-booking", CLJ + "core/registry.clj")],
  observe=["results of inventory, journal and rollup"])
p("C34", "Plugin-made directives get the spans of their own text, and only they do",
  "For each directive that a plugin made or changed (one with a provenance), the client asks for one synthetic span with the directive's own text, and for a transaction one more per posting with that posting's text; the span that comes back for a text is attached to that very directive or posting, and all other directives and fields stay as they are, so that reports about them point at the right text.",
  ["inputs"], "all lists of directives with and without provenance", CNOTEST,
  [CLJ + "adapter/synthetic_spans.clj", CLJ + "core/format.clj", CLJ + "util.clj"],
  [("merge-with-provenance", CLJ + "adapter/synthetic_spans.clj"), ("elements-xf", CLJ + "core/format.clj"), ("map-n", CLJ + "util.clj")],
  observe=["spans of directives handed to booking", "contexts of reports"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
