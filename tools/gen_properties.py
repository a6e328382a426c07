#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a generator so that the text stays reviewable)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [], mechanism=[dict(name=a, where=b) for a, b in mech],
                     observe_at=observe, hook_needed=hook)))

p("C01", "What is loaded does not depend on how the source delivers its bytes",
  "Loading a well-formed journal yields exactly the transactions written in it, in order, each with its dates, payee, note, postings, accounts, amounts, costs and posting notes as written. This holds however the source hands over the bytes: any chunk sizes (including splits inside a line or a multi-byte character), short reads, interrupted reads, LF or CRLF line ends, with or without a final newline.",
  ["inputs", "schedules", "fault_sequences"],
  "every well-formed journal text x every sequence of chunk sizes and transient read interruptions",
  "The tests load a handful of fixtures of at most ten lines from an in-memory cursor or a real file, always delivered in one chunk; none exceeds the 8 KiB read buffer, none sees a short or interrupted read.",
  ["src/parser.rs", "src/scanner.rs", "src/xact.rs", "src/post.rs", "src/journal.rs"],
  [("line loop over a buffered reader", "parser.rs Parser::parse, Parser::xact_directive"), ("tokenising", "scanner.rs"), ("model creation", "parser.rs parse_post, xact.rs Xact::create")],
  ["Journal::read / parse_file / parse_text, then the public transaction and posting fields"])

p("C02", "A source that cannot be read completely never yields a report",
  "If any journal source named by a command, or any file it includes, cannot be opened or cannot be read to its end (missing file, directory, I/O error at any offset, bytes that are not valid text), the command fails visibly. It never returns a report computed from only the part that could be read.",
  ["fault_sequences", "crash_points", "inputs"],
  "every set of sources x every position and kind of a non-transient open or read failure",
  "No test makes a read fail; a test can sample one offset of one file, not every offset of every source, include and error kind.",
  ["src/parser.rs", "src/lib.rs"],
  [("read errors end the load", "parser.rs Parser::parse, xact_directive"), ("open errors are fatal", "lib.rs parse_file"), ("missing includes are fatal", "parser.rs include_directive")],
  ["run, run_command, Journal::read, parse_file: return versus failure"])

p("C03", "A load that fails part-way leaves no torn transaction behind",
  "When loading stops at any point because of a read error, a failing source or malformed text, the journal holds exactly the transactions it held before plus those whose text, including the blank line that ends them, had been delivered before the failure. Each of them is complete; the interrupted transaction contributes nothing to the transaction list or to any account balance.",
  ["crash_points", "fault_sequences", "histories"],
  "every byte offset and kind of failure x every journal and every history of earlier successful loads",
  "Tests never observe a journal after a failed load; the failure points are as many as the bytes of the input.",
  ["src/parser.rs", "src/journal.rs", "src/xact.rs"],
  [("a transaction is added to the journal only once complete", "parser.rs xact_directive, journal.rs add_xact")],
  ["Journal.xacts, account totals and balance report after a failed load"])

p("C04", "A torn tail never disturbs the transactions before it",
  "If a journal file is cut off at an arbitrary byte (a crashed or interrupted writer), loading it either fails or succeeds, and in both cases every transaction that was already followed by its blank line is present and identical to what the uncut file yields, in the same order. At most one further transaction appears, and it contains only postings that begin inside the remaining text.",
  ["crash_points", "inputs"],
  "every journal x every truncation offset",
  "The fixtures are always complete files; a test would have to sample truncation offsets one by one.",
  ["src/parser.rs", "src/xact.rs", "src/scanner.rs"],
  [("end of input ends the open transaction", "parser.rs xact_directive"), ("commit of complete transactions", "journal.rs add_xact")],
  ["Journal.xacts and account totals after loading a truncated source"])

p("C05", "An omitted posting amount always brings the transaction to exactly zero",
  "For a transaction in which exactly one posting omits its amount and the others are in one commodity (taking a posting's cost where it has one), the omitted amount becomes exactly the negative of the sum of the others, in that commodity, so the transaction sums to zero. Amounts that were written are never altered, and a transaction whose missing amount cannot be determined (several omitted, or several commodities left over) is rejected rather than completed with a guess.",
  ["inputs", "histories", "fault_sequences"],
  "every transaction, any sign, size and number of postings, at any position of any load history and under any delivery of the source",
  "Tests use positive written amounts only, at most four postings and small integers.",
  ["src/xact.rs", "src/amount.rs", "src/balance.rs"],
  [("balance then invert", "xact.rs finalize, amount.rs inverse, balance.rs add")],
  ["posting amounts after loading; master account total"])

p("C06", "Account totals equal the sum of the postings below the account",
  "At any time, for every account and every commodity, the total reported for the account equals the exact sum of the amounts of all postings of all loaded transactions in that account and its descendants; no posting is lost, double-counted or attributed to another account or commodity. The balance report shows these totals, one line per account.",
  ["inputs", "histories", "schedules"],
  "every journal and load history, any number of accounts, postings and commodities, any memory placement",
  "Fixtures have at most five accounts, four postings and two commodities, below the sizes at which the collections grow and move.",
  ["src/account.rs", "src/balance.rs", "src/report.rs", "src/journal.rs"],
  [("per-account posting list", "account.rs amount, total; journal.rs add_xact"), ("per-commodity accumulation", "balance.rs add")],
  ["Account::total, Account::amount, balance report lines"])

p("C07", "Links between journal objects never go stale as the journal grows",
  "Following any link (a posting to its account, its transaction and its amount's commodity; an account to its postings and, through its full name, to its parents) always arrives at the current object held by the journal. This stays true through every further load and growth of the journal, whatever the memory allocator does with moved or freed blocks.",
  ["histories", "schedules", "inputs"],
  "every sequence of loads and growth x every allocator behaviour (relocation on growth, immediate reuse or poisoning of freed memory)",
  "Stale links read plausible old memory under the default allocator, and the fixtures stay below the growth thresholds of the collections.",
  ["src/account.rs", "src/pool.rs", "src/journal.rs", "src/xact.rs", "src/parser.rs"],
  [("boxed accounts and commodities", "account.rs accounts, pool.rs commodities"), ("postings linked once the transaction is complete", "journal.rs add_xact")],
  ["posting, account and commodity links through the public API"],
  state=[dict(name="account/commodity/transaction/posting addresses", meaning="raw links held across collections", where="post.rs, account.rs, amount.rs")])

p("C08", "Loading in pieces, with reports in between, equals loading at once",
  "Splitting a journal between any transactions or directives into several sources loaded one after another into the same journal (as text, reader or file, or as several files of one command, in order) gives the same transactions, accounts, totals and reports as loading it in one piece. Running reports or lookups between the loads changes nothing.",
  ["histories", "inputs"],
  "every journal x every split into sources x every interleaving of reports and lookups with the loads",
  "One test loads two files; none runs a report between loads, where cached names and totals could go stale.",
  ["src/lib.rs", "src/journal.rs", "src/account.rs", "src/report.rs"],
  [("loads append", "journal.rs, parser.rs"), ("cached full names", "account.rs fullname"), ("multiple -f options in order", "option.rs, lib.rs session_read_journal_files")],
  ["full journal snapshot and report text"])

p("C09", "An included file takes effect once, in place and in order",
  "An include line, relative to the working directory or absolute and nested (a hundred levels at least), has the same effect as writing the included file's contents at that place; each include line reads its file exactly once. A file that does not exist makes the load fail.",
  ["inputs", "fault_sequences", "configurations"],
  "every tree of included files, placements of the include line, working directories and read deliveries of each file",
  "The include tests are disabled or end in a todo; nothing checks order, nesting or a failing nested file.",
  ["src/parser.rs", "src/lib.rs"],
  [("include", "parser.rs include_directive")],
  ["journal snapshot after loading; file opens seen by the simulated file system"])

p("C10", "Reports are reproducible and ordered",
  "The same sources give byte-for-byte the same balance and accounts report, and the same listing of the journal's account tree, on every run, whatever the hash seeds, memory placement, clock, time zone or read delivery. Balance lines list parents before children and siblings in name order; the accounts report is sorted and lists every account once.",
  ["configurations", "schedules", "inputs"],
  "every journal x pairs of process environments (hash seed, clock, time zone, allocator, read delivery)",
  "A test run sees one random hash seed and one clock; order dependence shows only for some seeds and more than a few siblings.",
  ["src/report.rs", "src/account.rs", "src/lib.rs"],
  [("sorting", "report.rs get_children_lines, account.rs flatten/total, lib.rs execute_command")],
  ["run, run_command, report output"])

p("C11", "Commands running side by side or in succession do not affect each other",
  "Any number of commands and loads running in the same process, interleaved in any way at their I/O or one after another, even when some of them fail, give each caller exactly the result it would get alone. No data of one journal appears in another.",
  ["schedules", "histories", "fault_sequences"],
  "every interleaving of concurrent sessions at their I/O points, and every succession of sessions including failed ones",
  "Tests run one command per process; no interleaving is ever exercised.",
  ["src/lib.rs", "src/parser.rs", "src/journal.rs"],
  [("all state lives in the caller's journal", "lib.rs session_read_journal_files, journal.rs")],
  ["results of run / run_command / Journal::read per session"])

p("C12", "Every stated or implied price is recorded under its date",
  "Each price directive, and each posting exchanged at a cost (per unit, total, or implied by a two-commodity transaction), records exactly one price point: from the commodity, to the cost's commodity, at the directive's date and time (midnight where none, and for transactions), with the positive per-unit price. For the same pair and moment the price loaded last wins, and no other prices exist; a transaction that is interrupted or rejected records none.",
  ["inputs", "histories", "fault_sequences"],
  "every journal with prices and costs, in any load order, split and delivery",
  "Tests check one price from one posting and one directive parsed outside a journal.",
  ["src/pool.rs", "src/history.rs", "src/xact.rs", "src/parser.rs", "src/scanner.rs"],
  [("price directive", "parser.rs price_xact_directive, pool.rs parse_price_directive"), ("exchange", "pool.rs exchange, xact.rs finalize"), ("price graph", "history.rs add_price")],
  ["recorded price points"], hook="read access to the recorded price points (guarded)")

p("C13", "Conversion rates do not depend on the clock",
  "Looking up the rate between two different commodities finds a result exactly when a chain of recorded prices leads from one to the other, and then returns the product of the newest prices along a shortest chain, dated with the least recent of those prices. The answer is the same whatever the system clock says, including a clock earlier than the prices or one that jumps between lookups.",
  ["configurations", "histories", "inputs"],
  "every set of recorded prices x every pair of commodities x every clock reading and jump",
  "Tests look up past prices under the real clock on chains of one and two hops.",
  ["src/history.rs"],
  [("shortest chain", "history.rs find_price"), ("rate and date", "history.rs calculate_rate, get_direct_price")],
  ["price lookup result"], hook="access to the price lookup (guarded)")

p("C14", "A damaged amount or cost is never treated as if it had been left out",
  "If bytes of the number of a posting's amount or cost are lost or corrupted so that what is left cannot be read as an amount (a number, with or without a symbol) any more, loading fails. It never succeeds with that amount inferred from the other postings or with the cost ignored. A number with more digits than can be held exactly fails the load too; it is never rounded.",
  ["fault_sequences", "inputs"],
  "every posting amount or cost x every corruption (changed, lost or inserted bytes) of its number",
  "No test feeds a malformed number through a journal load.",
  ["src/parser.rs", "src/scanner.rs", "src/amount.rs"],
  [("amount and cost parsing", "parser.rs parse_post, parse_cost; amount.rs Quantity::from_str")],
  ["load outcome and posting amounts"])

p("C15", "One symbol is one commodity throughout the journal",
  "All amounts, costs and prices written with the same symbol, in any spelling of the amount (symbol before or after the number, with or without a space), in any source and load of a journal, refer to the same single commodity, and different symbols never share one. An amount written without a symbol has no commodity.",
  ["inputs", "histories", "schedules"],
  "every set of symbols and spellings, spread over any number of loads, any number of commodities",
  "Fixtures hold at most three commodities, below the first growth of the table.",
  ["src/pool.rs", "src/scanner.rs", "src/amount.rs"],
  [("find or create", "pool.rs find_or_create, create")],
  ["commodity of each amount and cost; pool lookups and size"])

p("C16", "The account tree holds every posted account once and finds it by name",
  "After any history of loads the account tree contains exactly the accounts posted to and their ancestors, each once, under the right parent (a load that failed may in addition leave accounts named in its interrupted transaction). Looking up a full account name returns that account, and looking up a name that was never used returns nothing.",
  ["inputs", "histories", "schedules"],
  "every set of account names (shared prefixes, equal names at different levels, any depth and fan-out) over every load and lookup history",
  "Tests look up accounts that exist, in trees of at most seven nodes.",
  ["src/account.rs", "src/journal.rs"],
  [("find or create by segments", "account.rs find_or_create, create_account")],
  ["find_account, account tree walk, full names"])

p("C17", "The command line tool reports success only after writing the whole report",
  "Run with a command and files, the tool prints the same report the library returns for those arguments and exits with success. If a file cannot be read completely, or its output cannot be written completely, it exits with failure.",
  ["fault_sequences", "configurations", "inputs"],
  "every argument list and journal x every read and output-write fault (short write, interruption, closed pipe, full disk) at every call",
  "No test runs the binary at all.",
  ["src/main.rs", "src/lib.rs", "src/option.rs"],
  [("argument hand-over and printing", "main.rs main, execute_command")],
  ["exit status and standard output of the built binary"])

p("C18", "Posting costs are the stated price times quantity, or the exchanged value",
  "A posting priced per unit costs its amount times that price and keeps the amount's sign; a posting with a total price keeps exactly that total. In a fully written transaction without any stated cost that exchanges exactly two commodities, the postings in the first posting's commodity get the cost that converts them into the other commodity so that costs and remaining amounts sum to zero when the two sides have opposite signs; no other posting gets a cost, and amounts never change.",
  ["inputs", "histories", "fault_sequences"],
  "every transaction with costs or two commodities, any signs, sizes and number of postings, under any delivery of the source",
  "Tests cover four fixed integer trades.",
  ["src/parser.rs", "src/xact.rs", "src/amount.rs", "src/pool.rs"],
  [("cost", "parser.rs parse_cost"), ("implied exchange", "xact.rs finalize")],
  ["posting cost fields after loading"])

p("C19", "Loading always finishes and never retries a failing source forever",
  "Every load of a finite source ends after a number of reads bounded by its length plus the number of injected interruptions: storms of interrupted or one-byte reads only delay it, a source that keeps failing ends it, nothing is requested repeatedly after the end of the data was signalled, and includes that lead back to themselves or deeper than can be followed end it with a failure the caller can catch.",
  ["schedules", "fault_sequences"],
  "every finite source x every sequence of interruptions, persistent failures and end-of-data signals",
  "Tests never see a failing or interrupted source, so an endless retry cannot show.",
  ["src/parser.rs"],
  [("read loops", "parser.rs Parser::parse, xact_directive")],
  ["number of read calls until the load returns or fails"])

p("C20", "Amount arithmetic is exact and never mixes commodities",
  "Adding or subtracting amounts of the same commodity is exact decimal arithmetic, and combining amounts of different commodities fails instead of producing a number.",
  ["inputs"], "every pair of amounts",
  "Tests sample small integers.",
  ["src/amount.rs"], [("operators", "amount.rs")], ["Amount operators"])

p("C21", "Command line words are split into commands and options without loss",
  "Every word of a command line ends up exactly once as a command, an option or an option value, in order; an option without its value or an unknown option is rejected.",
  ["inputs"], "every list of words",
  "Tests sample four command lines.",
  ["src/option.rs", "src/lib.rs"], [("argument processing", "option.rs process_arguments")], ["run"])

p("C22", "Loads and reports leave no trace outside the journal",
  "Loading sources, looking up accounts and making reports only read: whatever happens on the way (failing opens and reads, malformed text, failing includes), no file or directory is created, changed or removed, every file that was opened is closed when the call returns or fails, the working directory, the environment, the signal handlers and the panic hook are as before, and nothing is written to standard output by the library.",
  ["inputs", "fault_sequences", "histories"],
  "every history of loads, commands and reports x every open, stat, read or decoding failure",
  "Tests never look at descriptors, the directory or the working directory after a call that failed.",
  ["src/lib.rs", "src/parser.rs", "src/journal.rs", "src/report.rs"],
  [("opening and reading sources", "lib.rs parse_file, run; parser.rs include_directive"), ("reports", "report.rs")],
  ["system calls that change files", "open descriptors after each call", "contents of the directory", "working directory, environment, standard output"])

p("C23", "Repeating the same work does not accumulate memory",
  "When journals are dropped after use, repeating the same sequence of loads, lookups, reports and commands, including ones that fail part-way, in one process does not make it hold more and more memory: after a few rounds the memory held no longer grows.",
  ["histories", "fault_sequences"],
  "every sequence of operations with every failure in it, repeated any number of times",
  "Tests run each operation once and never look at what stays allocated, in particular on failing paths.",
  ["src/journal.rs", "src/account.rs", "src/pool.rs", "src/parser.rs", "src/xact.rs"],
  [("ownership of accounts, postings, commodities behind raw pointers", "account.rs, pool.rs, xact.rs, journal.rs")],
  ["blocks and bytes held after each round"])

p("C24", "No source, whatever bytes it holds, can damage the journal",
  "Loading arbitrary bytes (binary data, damaged or hostile text) ends in success or in a failure the caller can catch, never in a crash, a hang or runaway memory. Transactions loaded before stay as they were; whatever was added is consistent (every posting is linked to its transaction, account and commodity, every account amounts to the sum of its postings); reports still work (as long as sums stay within 28 digits); and well-formed journals loaded afterwards into the same journal give exactly their transactions.",
  ["inputs", "histories"],
  "every byte string x every history of loads around it",
  "Tests load well-formed files into fresh journals only.",
  ["src/parser.rs", "src/scanner.rs", "src/xact.rs", "src/account.rs", "src/pool.rs"],
  [("scanning", "scanner.rs"), ("directives, postings", "parser.rs"), ("completion of a transaction", "xact.rs finalize")],
  ["outcome of each load", "transactions, links and balances after each operation", "reports"])

p("C25", "Content added by calls joins the journal like loaded content",
  "A program may build parts of its journal by calls instead of text (registering accounts, parsing or making amounts, creating, finalizing and adding transactions, adding prices), in any order with loads, reports and failing loads in between, and may hold built transactions back and add them later. The journal then has the same transactions, accounts, totals, prices and reports as if the same content had been loaded as text at that place, and the accounts and commodities it was given earlier remain the ones the journal holds, however much it grows.",
  ["histories", "configurations"],
  "every history of calls and loads x every allocator behaviour",
  "Tests call single functions on fresh journals; they never mix calls with loads or keep what they were given while the journal grows.",
  ["src/journal.rs", "src/xact.rs", "src/post.rs", "src/pool.rs", "src/parser.rs", "src/account.rs"],
  [("registering accounts, adding transactions", "journal.rs register_account, add_xact"), ("amounts", "parser.rs parse_amount, pool.rs find_or_create"), ("completion of a transaction", "xact.rs finalize"), ("prices", "pool.rs add_price, parse_price_directive")],
  ["transactions, accounts, totals, links after each operation", "prices", "identity of kept accounts and commodities"])

p("C26", "Every load sees the files as they are at that moment",
  "A command or load of a file, and every include line in it, uses what the file holds when it is loaded: contents changed in place, replaced by a new file of the same name (even of the same size), removed or put back since an earlier load in the same process are noticed, and relative names, also in include lines, are looked up in the working directory the process has at that time. A file that is gone makes the load fail.",
  ["histories", "configurations"],
  "every history of loads and commands interleaved with changes of the files and of the working directory",
  "Tests load unchanging files from one working directory.",
  ["src/lib.rs", "src/parser.rs"],
  [("opening files", "lib.rs parse_file, session_read_journal_files"), ("includes", "parser.rs include_directive")],
  ["reports of commands", "transactions of the journal", "which loads fail"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
