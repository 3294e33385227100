#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from this one list, so that they cannot drift apart.
usage: tools/props.py   (then commit)"""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(pid, title, statement, over, text, why, files, mech, technique=None, level="model_checking", note=None, na=None):
    return locals()

TRUST = " Trusted: the reference model in harness/*.h, g++/libc, and that the bounds below are representative; nothing is sampled."
PROPS = [
P("C01", "An update history leaves exactly the triples it asks for",
  "After any sequence of builds, INSERT DATA, DELETE DATA, DELETE/INSERT WHERE, DELETE WHERE, file-based batch inserts and removes, saves and reopenings, the database contains exactly the set of triples obtained by applying the same operations to a mathematical set: nothing lost, duplicated, resurrected or invented, for subjects, predicates, objects, IRIs and literals alike. The templates of DELETE/INSERT WHERE apply once per solution of the group, whatever the group is made of; a triple with an unbound variable, or with a literal as subject or predicate, is left out. An update means the same however it is written (prefixes, abbreviations, comments, white space). Every access path (by subject, by predicate, by object and their combinations) and the reported triple count agree with that set after every step.",
  ["histories", "inputs"], "every history up to the stated length over an alphabet of update operations on a small universe of terms that exercises id reuse, empty stores, self loops and shared terms",
  "The tests run a few fixed update scripts; id reuse, lists that become empty and refill, and statistics that only matter after a reopen need particular sequences of operations, of which there are exponentially many.",
  ["Database/Database.cpp", "KVstore/KVstore.cpp", "KVstore/IVArray/IVArray.cpp", "KVstore/ISArray/ISArray.cpp", "KVstore/SITree/SITree.cpp", "Parser/RDFParser.cpp", "Query/GeneralEvaluation.cpp"],
  [("update execution", "Database::query, Database::insertTriple, Database::removeTriple"), ("batch updates", "Database::batch_insert, Database::batch_remove"), ("id allocation and recycling", "Database::allocEntityID, freeEntityID and the literal and predicate counterparts"), ("six value lists per triple", "KVstore::updateTupleslist_insert / updateTupleslist_remove")],
  "explicit-state exploration of all update histories up to a depth on the real database, compared with a set model after every step"),
P("C02", "Basic graph patterns return exactly the matching bindings",
  "For every graph and every basic graph pattern of a SELECT or ASK query (any mix of constants and variables in subject, predicate and object position, connected or not), the answer is exactly the multiset of bindings under which every triple pattern is in the graph. This holds whatever join order, candidate list or index the engine chooses, for terms that do not occur in the graph, and however the pattern is written (prefixes, `;` and `,` lists, `a`, comments, white space).",
  ["inputs", "programs"], "every pattern of up to four triples over the stated terms and variables, on every listed graph",
  "The tests check a handful of queries on fixed data; the plan generator and the executor branch on the shape of the pattern, which of its positions are constant and on candidate sizes, and each branch needs its own pattern and data.",
  ["Query/BGPQuery.cpp", "Query/GeneralEvaluation.cpp", "Database/Optimizer.cpp", "Database/Executor.cpp", "Query/topk", "KVstore/KVstore.cpp"],
  [("pattern encoding", "BGPQuery::EncodeBGPQuery"), ("plan choice", "PlanGenerator, Optimizer::MyDoQuery"), ("joins and candidate filtering", "Executor"), ("result assembly", "GeneralEvaluation::doQuery")],
  "bounded-exhaustive enumeration of graphs and patterns on the real engine against a reference matcher"),
P("C03", "Group patterns follow the SPARQL algebra",
  "OPTIONAL, UNION, MINUS, FILTER, BIND, nested groups and subqueries, in any order and nesting, give exactly the solutions of the SPARQL algebra whenever the variables they share are bound on both sides, whether by triples or by BIND. What is inside a group or a branch of a UNION (its assignments and filters) depends on that group alone. SELECT, SELECT DISTINCT, SELECT * and ASK over such groups agree with each other.",
  ["inputs", "programs"], "every group of up to four elements from the stated alphabet (including nested ones) on every listed graph",
  "Evaluation rewrites, reorders and caches groups, pushes limits and projections into the joins and stores results partly as ids and partly as strings; a wrong combination shows only for particular neighbours and orders.",
  ["Query/GeneralEvaluation.cpp", "Query/TempResult.cpp", "Query/QueryTree.cpp", "Parser/QueryParser.cpp"],
  [("group evaluation", "GeneralEvaluation::queryEvaluation"), ("join, union, optional, minus, filter, bind", "TempResultSet::doJoin, doUnion, doOptional, doMinus, doFilter, doBind"), ("projection and DISTINCT", "TempResultSet::doProjection1, doDistinct1")],
  "bounded-exhaustive enumeration of query groups on the real engine against a reference SPARQL algebra"),
P("C04", "ORDER BY, LIMIT, OFFSET, DISTINCT, GROUP BY and aggregates are exact",
  "LIMIT and OFFSET return the stated page of the full answer, ORDER BY (one or several keys, ascending or descending, bound or not) returns the rows in SPARQL order, and DISTINCT returns each row once. COUNT, SUM, AVG, MIN and MAX (the last two over numbers of any type or over dateTimes), with and without DISTINCT and GROUP BY, have the value defined over all solutions of the pattern, also for empty patterns, and are not changed by an additional LIMIT, ORDER BY or DISTINCT of the query.",
  ["inputs", "programs"], "every combination of pattern, projection, sort keys, page, grouping and aggregate of the stated family",
  "Limits, projections and duplicates are pushed down into evaluation when the engine thinks they can be; only particular combinations of modifiers with patterns show that they cannot.",
  ["Query/GeneralEvaluation.cpp", "Query/QueryTree.cpp", "Query/ResultSet.cpp", "Util/Stream.cpp", "Util/EvalMultitypeValue.cpp", "Query/topk"],
  [("final result", "GeneralEvaluation::getFinalResult"), ("limit pushdown", "QueryTree::getLimitOfSolutions"), ("sorting", "Stream, ResultCmp")],
  "bounded-exhaustive enumeration of modifier and aggregate combinations on the real engine against a reference evaluation"),
P("C05", "FILTER and BIND expressions have their SPARQL values",
  "The operators (= != < > <= >= + - * / && || ! IN NOT IN, with their precedence) and the functions STR, LANG, LANGMATCHES, DATATYPE, BOUND, IF, CONCAT, CONTAINS, STRSTARTS, UCASE, LCASE, REGEX, ABS, YEAR, MONTH, DAY, HOURS, MINUTES, isIRI, isURI, isLiteral and isNumeric have their SPARQL value for every kind of term: IRIs, plain, language-tagged and xsd:string literals, booleans, integers, longs, decimals, floats, doubles, dateTimes, literals of unknown datatypes and unbound variables. Numbers of different types compare and compute by value; errors propagate as SPARQL says (an error is neither true nor false), a FILTER keeps exactly the rows whose condition is true, and a BIND of an error leaves the variable unbound.",
  ["inputs", "programs"], "every expression of the stated family (all functions and operators, nested to depth two, three for conditions) over all pairs of the listed terms",
  "The value of an expression depends on the kinds of all its operands; the tests use a few comparisons of numbers and strings.",
  ["Query/TempResult.cpp", "Util/EvalMultitypeValue.cpp", "Util/EvalMultitypeValue.h", "Parser/QueryParser.cpp", "Query/RegexExpression.h"],
  [("expression evaluation", "TempResult::doComp, doFilter, doBind"), ("typed values", "EvalMultitypeValue"), ("expression trees", "QueryParser::buildCompTree")],
  "bounded-exhaustive enumeration of expressions and operand kinds on the real engine against a reference evaluator"),
P("C06", "What was saved survives the death of the process",
  "After a build, a checkpoint (save) or a close of a database has completed, the process may die at any later moment before the next save begins, in the middle of any update or between updates: the database then loads again, contains exactly the triples of the last save with all access paths and counts agreeing, and can be updated, closed and reopened like any other. Updates that were not saved leave no trace.",
  ["crash points", "histories"], "every history of updates, saves and reopenings up to the stated length and every file-changing system call of its last operation as the crash point",
  "A crash hits one of thousands of instants; the tests never kill a process. Files written ahead of the others (indexes, counters, id lists) only matter when the process dies before the rest is written.",
  ["Database/Database.cpp", "StringIndex/StringIndex.cpp", "KVstore/KVstore.cpp", "KVstore/SITree/SITree.cpp", "KVstore/ISArray/ISArray.cpp", "KVstore/IVArray/IVArray.cpp"],
  [("checkpoint", "Database::save, Database::unload"), ("write-through files", "StringIndexFile::change, StringIndexFile::disable"), ("id lists", "Database::saveIDinfo, readIDinfo")],
  "exhaustive crash-point exploration of the real code: the process is stopped (ptrace) before every file-changing system call of every history up to a depth, and the directory is reopened and compared with a set model"),
P("C07", "Transactions are atomic and isolated as their level promises",
  "A committed transaction takes effect as a whole, and a rolled-back or aborted one leaves nothing. READ COMMITTED transactions see the committed state plus their own updates; SNAPSHOT transactions see the state committed when they began plus their own updates, and two concurrent ones never both write the same triple; SERIALIZABLE transactions (over terms known to the database) have a serial order that explains all their reads and the final state. A transaction without a concurrent one in its way is never aborted, and an aborted one refuses every further operation. After a checkpoint the database itself, with its triple count and access paths, and any reopened copy, is exactly the committed state; a closing manager rolls back what is open.",
  ["schedules", "histories"], "every interleaving of the operations of two (small: three) transactions over the stated operations, and every history of one transaction after another with checkpoints and reopenings",
  "The tests never run two transactions; what a transaction may see depends on the order of its steps relative to those of the others, of which there are thousands for even two short transactions.",
  ["Database/Txn_manager.cpp", "Util/Transaction.h", "Util/Transaction.cpp", "Util/Version.cpp", "Util/GraphLock.cpp", "KVstore/KVstore.cpp", "KVstore/IVArray/IVEntry.cpp", "KVstore/IVArray/IVArray.cpp", "Database/Database.cpp"],
  [("begin, commit, rollback, checkpoint", "Txn_manager"), ("versions of a list", "IVEntry::ReadVersion, GetExclusiveLatch, WriteVersion"), ("merging versions", "KVstore::IVArrayVacuum, Database::VersionClean")],
  "stateless exploration of all interleavings of transaction operations (with an independence reduction) on the real transaction manager, against models of the isolation levels and a brute-force search for a serial order"),
P("C08", "Terms keep their identity from RDF and SPARQL text to export",
  "Reading an RDF file yields exactly the triples its Turtle text denotes, whatever spelling (quotes, escapes, prefixes, abbreviations, comments, line ends, position in the read buffer) is used. Every term so stored, or written by INSERT DATA or a template, is found again by each of its SPARQL spellings, differs from every other term, comes back unchanged in results, survives export, reopening and re-import, and is removed by exactly its own name. Not claimed: inner dots in local names, \\u escapes in SPARQL, relative IRI resolution, blank node labels as such; integers out of range are rejected when loading.",
  ["inputs", "histories"], "every literal over a delicate alphabet up to a length in every spelling, every statement shape of a Turtle grammar at every buffer offset, every short IRI in every position, lengths around buffer sizes, through build, batch insert and INSERT DATA",
  "The tests load a few well-behaved files; a single character combination, spelling or buffer boundary that is read differently silently changes a user's data.",
  ["Parser/RDFParser.cpp", "Parser/TurtleParser.cpp", "Parser/QueryParser.cpp", "Parser/SPARQL/SPARQLLexer.cpp", "KVstore/KVstore.cpp", "KVstore/SITree/SITree.cpp", "Database/Database.cpp", "Util/Util.cpp"],
  [("lexing and parsing RDF", "TurtleParser, RDFParser::parseFile"), ("terms of a query", "QueryParser::getTextWithRange, getLiteral, replacePrefix"), ("dictionary", "KVstore string/id trees, StringIndex"), ("export", "Database::export_db, Util::node2string")],
  "bounded-exhaustive enumeration of texts, spellings and terms on the real parser and the real store"),
P("C09", "Serialized results say exactly what the result is",
  "For every query result, whatever its terms, size, order, offset, limit and unbound columns, the JSON document, the tab-separated text and the file output each parse back to the same variables and rows (in the same order when ordered), a JSON binding keeping value, language and datatype apart, and producing one form does not change the others or a later repetition.",
  ["inputs"], "every literal over a delicate alphabet up to a length in six kinds, and every offset, limit, order and projection over results of up to five rows, in every order of the output forms",
  "The tests count answer lines; what a client reads from a literal with quotes, tabs, tags or datatype-like content is never checked.",
  ["Query/ResultSet.cpp", "Util/Stream.cpp", "Util/Util.cpp", "Database/Database.cpp", "Query/GeneralEvaluation.cpp"],
  [("JSON", "ResultSet::to_JSON"), ("text", "ResultSet::to_str, Util::node2string"), ("file output", "ResultSet::output, QueryParser/GeneralEvaluation::getFinalResult"), ("ordered results", "Stream")],
  "bounded-exhaustive enumeration of terms, pages and output histories on the real code, parsed back by an independent reader"),
P("C10", "Path and graph functions have their graph-theoretic values",
  "For every graph, predicate set (also empty: all), direction mode and pair of vertices, the functions reachable from SPARQL have their definition: cycleBoolean/cyclePath and shortestPath/Len/Count, kHopReachable/Path, kHopEnumerate/Count and kHopNeighbor report walks made of existing edges of the allowed predicates in the allowed directions, exist exactly when such a walk exists, and have exact lengths and numbers; SSSP/SSSPLen, bfsCount, closenessCentrality, triangleCounting, the local and the undirected global clusterCoeff, WCC and PR have their exact value (PR: the fixed point of its equation). It makes no difference whether sources come as constants, as a variable or several at a time, whether the CSR was loaded with the database, built on demand or made stale by updates, or whether IDs of removed terms leave gaps. Not claimed: k <= 0, source = target in shortest paths, self-loops in triangles, predicates that are all unknown in triangleCounting/clusterCoeff, PPR, labelProp, louvain, kplex, coreTruss.",
  ["inputs", "histories"], "all graphs of up to three vertices with two predicates (labelled, with self-loops and multi-edges) up to renaming plus a list of larger ones, all vertex pairs, k, direction and predicate sets, and update sequences between",
  "The stable tests run no path function at all; correct results depend on direction handling, multi-edges, ID gaps and stale caches that no sample covers.",
  ["Query/PathQueryHandler.cpp", "Query/GeneralEvaluation.cpp", "Database/CSR.cpp", "Database/Database.cpp"],
  [("functions", "PathQueryHandler"), ("argument binding and output", "GeneralEvaluation::fillValList/getFinalResult path functions"), ("adjacency", "CSR, Database::load(load_csr), csr_stale")],
  "bounded-exhaustive enumeration of graphs, arguments and update histories on the real code against breadth-first/exhaustive definitions"),
P("C11", "Backups, restores and database tools touch exactly what they name",
  "A backup - by gbackup, or of a database that is open with updates not saved yet - holds exactly the triples at that moment, stays so whatever happens to the database later, and taking it changes nothing. Restoring gives exactly the triples of the backup, after any later updates, removal or rebuilding; a folder that is no backup of the named database is refused and harms nothing. gbuild, gadd, gsub, gquery, gexport and gdrop change (or export) exactly the named database and as asked; the system database and gshow list exactly the databases that exist; names that are not databases, system, or missing files leave everything as it was. Archives unpack to exactly their files, never outside their directory, and exports unpack to what was exported.",
  ["histories", "inputs"], "all histories up to a length over updates, saves, reopenings, backups and restores; all sequences of tool calls up to a length over two databases; all archives of up to three entries",
  "Tests build, query and drop single databases; no backup is ever opened again, and no two tools are combined in an unusual order.",
  ["Database/Database.cpp", "Main/gbackup.cpp", "Main/grestore.cpp", "Main/gbuild.cpp", "Main/gadd.cpp", "Main/gsub.cpp", "Main/gdrop.cpp", "Main/gexport.cpp", "Main/gquery.cpp", "Util/Util.cpp", "Util/CompressFileUtil.cpp"],
  [("backup", "Database::backup"), ("restore", "Main/grestore.cpp, Util::get_folder_name"), ("registration", "system database, Main/*.cpp"), ("archives", "CompressUtil::UnCompressZip, FileHelper::compressExportZip")],
  "bounded-exhaustive enumeration of operation and tool-call histories on the real library and programs against a set model"),
P("C12", "Index files return exactly what was stored, at every size and cache",
  "Every index file - the trees from strings to IDs, the arrays from IDs to strings and the arrays from IDs to value lists - behaves as a map: whatever sequence of insertions, modifications, removals, reads, savings and reopenings happens, in whatever key order, at every value length (within a block, over several blocks, longer than the border above which lists are not cached), with every key as the one that makes an array grow or a tree node split, borrow or merge, and with a cache of any size that holds a single value (so that values and nodes are swapped out and read back), a read returns exactly the value stored last, absent and removed keys are reported absent, an insertion of an existing key and a modification or removal of an absent one are refused and change nothing, and nothing changes when the file is saved, closed and opened. The same holds for a database whose terms get numbers beyond the size its indexes were built for.",
  ["histories", "inputs"], "all operation sequences up to a length over three keys and three value lengths with small and large caches, all growth keys and value lengths in a range, all short sequences from trees about to split or merge, tree lives by size, insertion order, removal order, buffer and reopening point",
  "Test databases fit one tree node and the cache never overflows, so eviction, block reuse, splits, merges and array growth never run.",
  ["KVstore/IVArray/IVArray.cpp", "KVstore/IVArray/IVBlockManager.cpp", "KVstore/IVArray/IVEntry.cpp", "KVstore/ISArray/ISArray.cpp", "KVstore/ISArray/ISBlockManager.cpp", "KVstore/SITree/SITree.cpp", "KVstore/SITree/node/SILeafNode.cpp", "KVstore/SITree/node/SIIntlNode.cpp", "KVstore/SITree/storage/SIStorage.cpp"],
  [("value lists", "IVArray, IVBlockManager"), ("strings by ID", "ISArray, ISBlockManager"), ("IDs by string", "SITree, SILeafNode, SIIntlNode, SIStorage, SIHeap")],
  "bounded-exhaustive enumeration of operation sequences on the real index files against a map"),
P("C13", "Operations run by several threads act as if one after the other, and end",
  "Whatever the schedule of the threads: when several threads use one open database at the same time - queries, updates outside of transactions, transactions (begin, queries and updates inside them, commit, rollback) at every isolation level, and checkpoints - every operation ends (no crash, no deadlock, no use of freed memory, no lock left behind by a success, a failure or an exception) and what all of them return, together with the content afterwards (the same through every index, with the right number of triples, and still open to updates), is what some order of the whole operations gives that keeps the order of operations that did not overlap; an operation may instead be refused as busy only while it overlaps an update, and a transaction may be aborted only while it overlaps another transaction. (Not claimed: updates outside of transactions while a transaction is open; a READ COMMITTED query while another transaction's commit is running, which may see a part of it; saving or loading files while other operations run, which the server excludes with its own lock.) A query outside of transactions sees a commit's checkpoint entirely or not at all; two transactions that use the same new term agree on it. The same holds of several threads that use one index file (reads, growth, insertion, removal) and of the threads that loading a file into the database, removing one and opening the database create themselves.",
  ["schedules"], "all schedules of two or three threads up to a number of preemptions, at the level of lock operations and at the level of basic blocks",
  "Tests run one request at a time, or leave the schedule to chance.",
  ["Database/Database.cpp", "Database/Txn_manager.cpp", "Database/Transaction.h", "KVstore/IVArray/IVArray.cpp", "KVstore/ISArray/ISArray.cpp", "KVstore/SITree/SITree.cpp", "Util/Latch.cpp", "Util/GraphLock.h", "Util/SpinLock.h"],
  [("update lock, query counter", "Database::query, insertTriple, removeTriple, checkpoint"), ("commit lock, version visibility", "Txn_manager, Database::TransactionCommit, VersionClean"), ("index array locks and latches", "IVArray, ISArray, Latch"), ("parallel batch", "Database::batch_insert, batch_remove, KVstore updates")],
  "stateless model checking of the implementation: exhaustive preemption-bounded schedules under a controlled scheduler, with serial executions of the real code as the specification"),
P("C14", "The server permits exactly what was granted, also after a restart",
  "The access layer that the HTTP and GRPC servers ask (users, passwords, privileges, register of databases, lists of addresses, locked addresses) answers every question exactly according to the history of successful operations: whatever sequence of adding and deleting users, changing passwords, granting, revoking, clearing and copying privileges, registering and dropping databases, and stopping, killing and starting the server, a user is let in with exactly the current password (plain or MD5) and may do exactly the operations whose privilege (query, update, load, unload, restore, backup, export) was granted on that database and not revoked since; a deleted user's privileges do not come back with a new user of that name, nor those on a dropped database with a new database of that name; root may do everything except on the system database; unknown users may do nothing that needs a privilege; the lists of users and of databases show the same; and all of this is the same directly after the operation and after the next start, however the server ended. Every password, whatever characters it contains, is stored and compared exactly and changes nothing else; a user name that cannot be stored is refused and changes nothing; no such operation throws or leaves a lock behind. An address is refused exactly if it is not in the list of allowed addresses (when that is in use) or is in the list of denied ones, where a range contains all addresses from its first to its last; and after five failed logins until it is reset, without effect on other addresses.",
  ["histories", "inputs"], "all sequences of two administrative operations (three of a smaller set) from a fresh and a populated system database with restarts, all subsets of list entries, all sequences of failed logins and resets",
  "Tests grant a privilege and use it; they do not ask what is left after a deletion, a re-creation and a restart, for every privilege, user and database.",
  ["GRPC/APIUtil.cpp", "GRPC/APIUtil.h", "Util/IPWhiteList.cpp", "Util/IPBlackList.cpp"],
  [("users and privileges in memory and in the system database", "APIUtil::initialize, user_add, user_delete, user_pwd_alert, add_privilege, del_privilege, clear_user_privilege, init_privilege, copy_privilege, delete_from_already_build, update_sys_db, refresh_sys_db"), ("access decision", "APIUtil::check_indentity, check_privilege"), ("addresses", "IPWhiteList, IPBlackList, APIUtil::check_access_ip")],
  "bounded-exhaustive enumeration of operation sequences on the real access layer against a model, with the complete access matrix compared in every state"),
P("C15", "The server's logs show every entry once, as it happened",
  "Whatever was logged, in whatever order and with whatever text (quotes, control characters, any length), reading the query log, the access log and the log of transactions page by page gives every entry exactly once, newest first, with the content that was written (line breaks of access messages removed), in pages of the requested size except a shorter last one, with the right number of entries and pages; a page after the last is refused; reading an empty log gives an empty page and does not stop later operations. The log of transactions shows each transaction with the state and time of its first end (committed, rolled back, aborted, or ended by the end of all running ones) and as running before, whatever requests come after its end and however often the server restarts.",
  ["histories", "inputs"], "all pairs of texts with lengths around the buffer sizes, one such text at any place among up to 15 entries, all sequences of three (thorough: four) operations on the log of transactions; every page of several sizes",
  "Tests write a few short entries and read the first page.",
  ["GRPC/APIUtil.cpp", "GRPC/APIUtil.h"],
  [("pages", "APIUtil::get_query_log, get_access_log, get_transactionlog"), ("entries", "APIUtil::write_query_log, write_access_log, add_transactionlog, update_transactionlog, abort_transactionlog")],
  "bounded-exhaustive enumeration of log histories and pages on the real code against a list"),
]

def main():
    import sys
    sys.path.insert(0, os.path.join(V, "tools"))
    import registry
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(dict(id=p["pid"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"], anchors=dict(files=p["files"], mechanism=[dict(name=a, where=b) for a, b in p["mech"]]))) + "\n")
    checks, na = [], []
    for p in PROPS:
        if p["pid"] in registry.CHECKS and not p["na"]:
            checks.append(dict(property=p["pid"], quick_cmd="python3 check.py %s" % p["pid"], thorough_cmd="python3 check.py %s --tier thorough" % p["pid"],
                technique=p["technique"], level=p["level"], level_note=(p["note"] or "Every case within the bounds listed in the evidence is executed on the real code and compared with the reference.") + TRUST))
        else:
            na.append(dict(property=p["pid"], reason=p["na"] or "no check yet"))
    hooks = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines() if " verif hook" in l]
    m = dict(version=1, setup_cmd="python3 tools/setup.py", hooks=dict(guard="GSTORE_VERIF", enable="tools/build.py compiles /repo's sources with -DGSTORE_VERIF into /verif/.cache", source_commits=hooks),
        checks=checks, not_applicable=na)
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")

main()
