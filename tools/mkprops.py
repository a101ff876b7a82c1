#!/usr/bin/env python3
"""Writes /verif/properties.jsonl.  Kept as a script so the long text stays editable."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

U, ZP, ZG, LG, IG, PR, DR, BIN = ("src/utils.cpp", "src/zone-file-parser.cpp", "src/zone-graph.cpp", "src/label-graph.cpp",
  "src/interpretation-graph.cpp", "src/properties.cpp", "src/driver.cpp", "bin/groot.cpp")
OUT = ["output.json written by the groot program"]
# ------------------------------------------------------------------ input
prop("C01", "Domain names and types are compared case-insensitively",
 "The letter case used for domain names, name server names, record types, classes and record data in zone files, in the metadata and in the jobs file never changes the result. Two inputs that differ only in the case of such names give the same records, the same resolution behaviour and the same violations.",
 ["inputs"], "every zone file, metadata file and jobs file, for every choice of upper and lower case letters in them",
 "The test inputs are almost entirely lower case; the property quantifies over all spellings at every place a name enters the program.",
 [ZP, DR], [("zone file owner names, data and $ORIGIN are lowered before records are built", ZP), ("job domain, allowed domains, expected values, name servers and origins are lowered", DR)], OUT)
prop("C02", "Every zone file record is loaded or accounted for",
 "Every record of a supported type in a zone file either becomes part of the zone that resolution and equivalence class generation use, or is left out for exactly one recognised reason (illegal length, outside the zone, duplicate, conflicting alias) that is counted and, when linting is on, reported with its file, line and text. A legal, in-zone, non-conflicting record is never left out, and a record that is left out of the zone is left out of every other structure too.",
 ["inputs"], "all zone file texts and all records in them, whatever their order and position in the file",
 "The parser tests load a few well formed files; the disposition must be right for every combination of length, membership, duplication and conflict.",
 [ZP, ZG], [("parser action at end of record", ZP), ("zone insertion result codes", ZG)], OUT + ["lint.json", "statistics printed with -s"])
prop("C03", "Omitted record fields and relative names are completed as DNS prescribes",
 "A record with a blank owner belongs to the most recent owner, '@' and names not ending in a dot are completed with the current origin (the last $ORIGIN, the metadata origin, or the zone apex), and relative name server, alias and mail exchange targets are completed the same way. A record without its own time-to-live gets the default one, one with its own keeps it, and the class is IN unless the record says otherwise.",
 ["inputs"], "all zone files using any mix of absolute, relative, '@' and blank owners and any placement of $ORIGIN and $TTL",
 "The test zone files are normalised (absolute names, explicit fields), so hardly any completion path is run.",
 [ZP], [("parser action at end of record, control entries, default values", ZP)], OUT)
prop("C04", "Length limits are the DNS limits and are applied everywhere",
 "A name is accepted exactly when every label has at most 63 characters and the whole name fits in 255 octets, and the same limit decides for owner names, alias and name server targets, job domains, generated query names and rewritten queries. A name over the limit is never looked up in a zone.",
 ["inputs"], "all names, in particular those whose label or total length is exactly at, one below or one above a limit",
 "No test has a name near either limit.",
 [U, "src/node-label.h", ZP, LG, IG], [("LengthCheck and its callers", U), ("length cut-offs during class generation", LG)], OUT + ["lint.json"])
prop("C05", "Record type names and codes agree in every table",
 "Every record type the zone file reader accepts is one the rest of the program can represent, and turning any representable type into text and back gives the same type. No accepted record carries a type outside the representable ones.",
 ["inputs"], "all record type mnemonics and all type codes",
 "The conversion test tries a few types; the tables live in four places that must agree for each member.",
 [U, ZP, "src/resource-record.h"], [("type enumeration, the two conversion tables, and the reader's list of types", U + ", " + ZP)], OUT + ["lint.json"])
prop("C06", "No zone file text can crash or abort the reader",
 "Whatever bytes a zone file contains, reading it never accesses a field the record does not have and never ends the run through an unhandled conversion error. A malformed directive or record is reported or skipped, and the remaining zone files and jobs are still processed.",
 ["inputs"], "all byte sequences as zone file contents, including directives without arguments and numbers out of range",
 "All test files are well formed.",
 [ZP], [("field accesses and number conversions in the parser action", ZP)], ["exit status of groot", "output.json"])
# ------------------------------------------------------------------ zone data structure
prop("C07", "A zone holds no duplicate or conflicting records at a name",
 "At any name of a loaded zone there are no two identical records, at most one CNAME and at most one DNAME, and a CNAME never coexists with a record of another type, for every order in which the records are read. A rejected record leaves the zone's records unchanged, and an accepted record is stored exactly once, unmodified, at its own owner name.",
 ["inputs", "histories"], "all sequences of records added to a zone, in any order",
 "Tests add a handful of conflicting pairs in one order.",
 [ZG], [("AddResourceRecord conflict loop", ZG)], OUT, [("zone tree node records", "records at a name", ZG)])
prop("C08", "Records outside the zone never enter it",
 "A zone's name is the owner of its start-of-authority record, including the root, and only records whose owner is at or below that name are loaded. A non-SOA record found before the SOA record ends the run with an error.",
 ["inputs"], "all zone files: any origin, any owner, any order of records",
 "The tests have no out-of-zone record and no root zone.",
 [ZG, U], [("CheckZoneMembership", ZG), ("SubDomainCheck", U)], OUT + ["exit status"])
prop("C09", "Child lookup by index and by scan always agree",
 "Finding a child name under a node gives the same node whether the node is searched through its label index or by scanning its children. Every index lists exactly the node's real children, also for children added after the index was built, and is not affected by alias edges.",
 ["inputs", "histories"], "all insertion histories, in particular nodes with more children than the indexing threshold",
 "Only one test builds a node with more than 500 children, and for a single label graph.",
 [ZG, LG], [("vertex_to_child_map_ construction, AddNodes update and the two search branches", ZG + ", " + LG)], OUT,
 [("child index", "labels to children for nodes with many children", "src/zone-graph.h, src/label-graph.h")])
# ------------------------------------------------------------------ lookup
prop("C10", "Zone lookup stops at delegations and DNAMEs on the way down",
 "Looking up a name walks from the apex down one existing label at a time and stops at the first name that holds name server records but no SOA (a delegation), or at a name that holds a DNAME when labels remain, or at the deepest existing name. Names below such a cut are never consulted, however many children a node has.",
 ["inputs"], "all zones and all query names",
 "The zone tests check three small zones; the rule must hold for every tree shape and both search branches.",
 [ZG], [("GetClosestEncloser", ZG)], OUT)
prop("C11", "Lookups of names not in the zone follow DNS precedence",
 "For a query below the deepest matching name, the zone answers with a referral if that name is a delegation, otherwise with a DNAME rewrite if it has a DNAME, otherwise from its wildcard child if there is one, and otherwise with non-existence for all the queried types; a DNAME at the apex takes precedence over the apex's own name server records. The answer carries exactly the records that justify it.",
 ["inputs"], "all zones, query names and query type sets",
 "The tests cover a few zones; the decision table must hold for all combinations of record types at the closest name.",
 [ZG], [("QueryLookUpAtZone, non exact branch; WildcardMatch", ZG)], OUT)
prop("C12", "Exact-match lookups return exactly the requested records",
 "When the queried name exists and the query is not for its non-existent children, a CNAME there is returned as a rewrite (or as the answer when only CNAME was asked), a delegation is returned as a referral, and otherwise the answer holds exactly the records of the queried types. Every queried type without records at that name is reported in a separate empty answer.",
 ["inputs"], "all zones, existing names and query type sets",
 "The tests ask a few type combinations.",
 [ZG], [("QueryLookUpAtZone, exact branch", ZG)], OUT)
prop("C13", "Wildcard synthesis returns exactly the requested records",
 "A query answered by a wildcard gets the wildcard's CNAME as a rewrite (or as the answer when only CNAME was asked), otherwise exactly the wildcard's records of the queried types, and each queried type without records is reported in a separate empty answer. A name without a wildcard child is never treated as having one.",
 ["inputs"], "all zones with or without wildcards, all query type sets",
 "One test zone has wildcards.",
 [ZG], [("WildcardMatch", ZG)], OUT)
prop("C14", "Glue is attached to each referral server from the zone's own addresses",
 "Every name server record in a referral is kept, in order, followed by exactly the A and AAAA records the zone holds for that server's name, and none for other servers. A name server is said to need glue exactly when its name is at or below the zone's name.",
 ["inputs"], "all zones and name server sets, with and without addresses",
 "The test zones have few delegations with glue.",
 [ZG, IG], [("AddGlueRecords, LookUpGlueRecords, RequireGlueRecords", ZG), ("MatchNsGlueRecords", IG)], OUT + ["lint.json"])
# ------------------------------------------------------------------ EC generation
prop("C15", "The label graph contains every loaded record's name and DNAME target",
 "After loading, the combined name tree contains the owner of every loaded record, linked to each zone node that holds it and marked with the record's type, and every DNAME owner has exactly one rewrite edge to the node of its target name. Name-tree edges and rewrite edges are never confused.",
 ["inputs", "histories"], "all sets of zone files and all orders of loading",
 "The tests compare a few vertex and edge counts.",
 [LG], [("AddResourceRecord, AddNodes, GetAncestor", LG)], OUT)
prop("C16", "The search for a job's domain returns all longest matches",
 "Searching the combined name tree for a domain follows both child and rewrite edges and returns exactly the matches of the largest depth, always including at least the node reached by direct matching. A rewrite cycle ends the branch without returning it, and a search leaves no trace that could change a later one.",
 ["inputs", "histories"], "all name trees with rewrite edges, all domains, all sequences of searches",
 "The search test asks for a few names on one tree.",
 [LG], [("SearchNode len bookkeeping and maximum selection", LG)], OUT)
prop("C17", "Equivalence classes cover the whole requested name space",
 "A job with subdomains generates, for each name at or below the domain and each name reachable by rewriting, a class for the name itself and a class for its other children (wildcard or non-existent); a job without subdomains generates the class of the domain itself or, if absent, of its closest existing ancestor's other children. Each class asks for the job's types, except that the class of non-existent children asks for every type, and only illegal lengths and rewrite cycles cut the generation short.",
 ["inputs", "configurations"], "all zone sets and all job domains",
 "The tests compare the number of classes for one or two examples.",
 [LG], [("GenerateECs, SubDomainECGeneration, NodeEC, WildcardChildEC", LG)], OUT + ["number of ECs with -s"])
prop("C18", "Class generation leaves the shared name tree as it found it",
 "Generating the classes of a job restores all scratch state in the shared name tree on every path, so a later job sees the same tree. Generation for one starting point never observes the scratch state of another running at the same time.",
 ["histories", "schedules"], "all sequences of jobs and all schedules of the generator threads",
 "A missed restore or a race only shows in a later job or in a rare schedule.",
 [LG], [("len save and restore in SubDomainECGeneration and SearchNode", LG)], OUT, [("len", "length of the name on the current walk", "src/label-graph.h")])
# ------------------------------------------------------------------ resolution
prop("C19", "A name server answers from its most specific zone",
 "Among the zones a name server hosts, a query is answered from the one whose origin is the longest that encloses the query name, and the query is refused exactly when none does. Zones hosted by other servers are never used.",
 ["inputs"], "all metadata (any number of zones per server, any order) and all query names",
 "The examples have at most a few zones per server.",
 [IG], [("GetRelevantZone", IG)], OUT)
prop("C20", "Each query is resolved at most once per server and shared by all paths",
 "During the resolution of a class, a given query sent to a given name server is looked up once and every step leading to it is linked to that single result. Two queries share a result only when their name, types and non-existence condition are all equal.",
 ["inputs", "histories"], "all resolution histories",
 "Tests only compare final counts.",
 [IG, "src/equivalence-class.cpp"], [("InsertNode, SideQuery, EC equality", IG)], OUT)
prop("C21", "Every contacted server gets an answer",
 "Every name server reached during resolution ends with a recorded answer: the result of the lookup in its most specific zone, a refusal when it hosts no enclosing zone, not-found when no data was supplied for it, or a too-long marker when the rewritten name is illegal. Every top name server is contacted for the initial query and for every restarted query.",
 ["inputs"], "all resolution graphs", "The tests look at a few graphs.",
 [IG], [("QueryResolver, NsSubRoutine, StartFromTopNameservers, CheckCnameDnameAtSameNameserver", IG)], OUT)
prop("C22", "Every name server of a referral is followed",
 "A referral continues the same query at every name server it lists. A server without glue that is not a top name server is followed only after a side query for both its IPv4 and IPv6 addresses has been issued from the top name servers, and that side query is recorded with the step.",
 ["inputs"], "all referrals: any number of servers, with and without glue",
 "Few examples have unglued delegations.",
 [IG], [("QueryResolver REF case, SideQuery", IG)], OUT)
prop("C23", "CNAME and DNAME rewriting produce the DNS rewritten query",
 "A CNAME rewrite continues with the alias target as the whole name and with CNAME removed from the requested types; a DNAME rewrite replaces exactly the owner suffix by the target, keeps the remaining labels in order and keeps the requested types. The rewritten query continues at the same server when it hosts an enclosing zone and restarts from the top name servers otherwise.",
 ["inputs"], "all rewrite records and all queries", "Tests exercise a few rewrites.",
 [IG], [("ProcessCname, ProcessDname, CheckCnameDnameAtSameNameserver", IG)], OUT)
prop("C24", "Resolution of every class terminates",
 "Resolving a class ends for all zone data, including delegation loops, alias loops and DNAME recursion, because every recursive step first claims a new pair of server and query. Names never grow beyond the legal limit along the way.",
 ["inputs"], "all zone sets, including cyclic and self-referential ones",
 "Tests have one or two loops; termination quantifies over all inputs.",
 [IG], [("freshness test of InsertNode and SideQuery guarding recursion; length test before rewriting", IG)], ["termination of groot"])
prop("C25", "Results are never read through references to relocated graph storage",
 "No step of resolution or loading keeps using a reference or pointer into a graph node after an operation that may add nodes to that graph. The zone data a resolution reads is never modified by it.",
 ["inputs", "histories"], "all graph growth histories",
 "Whether a stale reference is noticed depends on allocator behaviour.",
 [IG, ZG, LG], [("copies of answers before recursing; index based access", IG)], OUT)
prop("C26", "All resolution paths and all their end points are examined",
 "Every path property is evaluated on every loop-free resolution path of a class and every node property on the set of all end points, each end point once. A rewrite by CNAME for a query that also asks for CNAME counts as an end point and as a path end of its own, and the search for cyclic dependencies covers side queries and reports the nodes of the cycle.",
 ["inputs"], "all resolution graphs and all property sets",
 "Tests compare violation counts of two examples.",
 [IG], [("EnumeratePathsAndReturnEndNodes, CheckPropertiesOnEC, CheckForLoops, PrettyPrintLoop", IG)], OUT)
# ------------------------------------------------------------------ the checks
def chk(id, title, st, mech, why="The examples trigger each report once or twice; exactness quantifies over all resolution outcomes.", files=None):
    prop(id, title, st, ["inputs"], "all resolution outcomes, in any combination of servers, tags, types and records", why, files or [PR], [(mech, PR)], OUT)
chk("C30", "ResponseReturned reports exactly the empty answers for requested types",
 "A violation is reported for an end point exactly when it answered with no records for some requested type, naming those types and the name server; refused and not-found servers are not reported. Classes of non-existent names are never reported.", "CheckResponseReturned")
chk("C31", "ResponseValue reports exactly the end points whose answer differs",
 "An end point is listed exactly when the set of data of its records of the requested types differs from the expected set, a non-existent or too-long name counting as the empty set; refused and not-found servers are not listed. One report with the expected values is made exactly when something is listed.", "CheckResponseValue")
chk("C32", "ResponseConsistency reports exactly differing answers",
 "A violation is reported exactly when two end points whose final answers (no rewrites) are compared return different sets of records of the requested types, or when CNAME is among the property's types and two end points whose query asks for CNAME differ in the kind of answer or in those records. Only end points queried for some requested type count, and refused and not-found servers never cause a report.", "CheckSameResponseReturned")
chk("C33", "ZeroTTL reports exactly the zero time-to-live records of requested types",
 "A violation is reported for each record with time-to-live zero and a requested type in the answer of an end point, and for nothing else. Refused and not-found servers are not examined.", "ZeroTTL")
chk("C34", "AllAliases lists exactly the names rewritten to a canonical name",
 "A query name is listed as an alias of a canonical name exactly when on some path a rewrite of it is later followed by a query for that canonical name that is not a query for non-existent children. The final list groups all aliases of each canonical name.", "AllAliases", files=[PR, DR])
chk("C35", "DelegationConsistency compares the last delegation with its child",
 "On each path of at least two servers, the last referral that is followed by an authoritative answer with name server records for the original query is compared with it, and a violation is reported exactly when their name server records differ or their glue, without parent glue the child does not need, differs. Names of both servers and the kind of difference are reported.", "CheckDelegationConsistency")
chk("C36", "LameDelegation reports exactly the referrals to servers that refuse",
 "A violation naming both servers is reported exactly for each referral on a path whose next server refuses the original query name. No other outcome is reported as lame.", "CheckLameDelegation")
chk("C37", "Hops counts every change of name server",
 "The number of hops of a path is its number of maximal runs of the same name server, and a violation with the actual and the allowed number is reported exactly when it exceeds the allowed number.", "NumberOfHops")
chk("C38", "Rewrites counts every rewrite on a path",
 "The number of rewrites of a path is the number of its steps answered by a rewrite, and a violation with the actual and the allowed number is reported exactly when it exceeds the allowed number.", "NumberOfRewrites")
chk("C39", "QueryRewrite reports exactly the rewrites leaving the allowed domains",
 "A violation is reported exactly for each rewrite on a path whose next query name is not at or below any allowed domain. The report names the server, the query, the target and the allowed domains.", "QueryRewrite")
chk("C40", "NameserverContact reports exactly the contacts outside the allowed domains",
 "A violation is reported exactly for each name server on a path whose name is not at or below any allowed domain. The report names that server and the allowed domains.", "NameServerContact")
chk("C41", "RewriteBlackholing reports exactly the rewritten paths that end in NX",
 "A violation is reported for a path exactly when it contains a rewrite before its last step and its last step is a non-existent name, once per path and naming the first rewritten query, the final target and the final server.", "RewriteBlackholing")
chk("C42", "DNAMESubstitutionCheck reports exactly the overlong rewrites",
 "A violation is reported for a path exactly when its last step is a rewritten name that exceeds the legal length, naming the original query, the target and the server.", "DNAMESubstitutionExceedesLength")
chk("C43", "InfiniteDNameRec reports exactly repeated rewrites that do not shrink",
 "A violation is reported for a path exactly when a rewrite record is used again on the path with a query at least as long as at its previous use. The records used so far are listed.", "InfiniteDName")
prop("C44", "StructuralDelegationConsistency compares every parent and child pair",
 "For every name with name server records, each zone where it is the apex is compared with each zone of the nearest enclosing parent origin, and parents and children are compared among themselves; a difference in name server records or in required glue is always reported with the common and exclusive records of each side. Equal delegations are never reported.",
 ["inputs"], "all sets of zones for a name, in any order", "The examples have one or two inconsistent delegations.",
 [LG], [("CheckStructuralDelegationConsistency, CompareParentChildDelegationRecords, ConstructOutputNS", LG)], OUT)
prop("C45", "Record set comparison finds exactly the common and exclusive records",
 "Comparing two sets of records splits them into the common ones and those only in either side, without losing or duplicating any. Records are equal exactly when name, type and data are equal, whatever their time-to-live.",
 ["inputs"], "all pairs of record sets in any order", "The examples compare small sets.",
 [U, "src/resource-record.cpp"], [("CompareRRs", U), ("record equality", "src/resource-record.cpp")], OUT)
prop("C46", "Subdomain tests and name splitting follow label boundaries",
 "A name is under another exactly when its labels, from the top, start with all labels of the other, and under a set of domains when it is under any of them. Splitting text into labels keeps escaped dots inside a label, ignores empty labels and orders labels from the top, and joining them again gives the same absolute name.",
 ["inputs"], "all names, including the root and names with escaped dots", "The unit tests try a few names.",
 [U], [("SubDomainCheck, StringToLabels, LabelsToString", U)], OUT)
# ------------------------------------------------------------------ driver
prop("C50", "Every documented property runs with the user's own parameters",
 "Each property name documented for jobs starts exactly its own check, with the types, numbers, domains or values given for that property in that job, and no documented property is silently ignored. The types queried for a job are those of all its properties together, with name servers added by properties that give no types.",
 ["configurations", "inputs"], "all jobs files and all combinations of properties", "The example jobs use some properties once.",
 [DR], [("SetJob dispatch", DR)], OUT)
prop("C51", "Jobs are independent of each other",
 "The violations found for a job do not depend on which jobs were run before it in the same run. Everything one job sets up is replaced or reset when the next job is set up.",
 ["histories", "configurations"], "all sequences of jobs", "The tests run one job per driver.",
 [DR, "src/job.h"], [("SetJob resets", DR)], OUT, [("current job", "per-job settings, queues and statistics", "src/job.h")])
prop("C52", "No class and no violation is lost in the concurrent pipeline",
 "Every generated class is processed by exactly one worker and every violation and statistic a worker produces is collected before the job ends, for every interleaving of the producer, the workers and the collectors. A job ends only after all of them have finished.",
 ["schedules"], "all interleavings of producer, eight workers and two collectors", "A test run observes one schedule.",
 [DR], [("termination protocol: finished flag, drained queue, counter of finished workers, joins", DR)], OUT)
prop("C53", "Workers share no unsynchronised mutable state",
 "While a job runs, data reachable from more than one thread is either only read, or is an atomic, or is a concurrent queue, or is touched by a single thread. Zone data and the name tree that workers read are not written by any of them.",
 ["schedules"], "all interleavings", "Races are schedule dependent and the sanitizer is not part of the tests.",
 [DR, LG, IG, "src/ec-task.cpp", "src/structural-task.cpp"], [("const access in workers, atomics and concurrent queues", "src/job.h")], OUT)
prop("C54", "The output file is one valid JSON array with every violation",
 "The output file is always a valid JSON array that contains each distinct violation found by any job exactly once, and nothing else, for every content of the zone files. An empty result is the empty array.",
 ["inputs"], "all violation sets, including names and data with arbitrary bytes", "The tests compare a few outputs without special bytes.",
 [DR], [("WriteViolationsToFile", DR)], OUT)
prop("C55", "The lint file is one valid JSON array with every zone file issue",
 "With linting on, the lint file is a valid JSON array holding one entry for each duplicate, conflicting, out-of-zone or overlong record and for each in-zone name server without an address record, and nothing is written when linting is off. Entries carry file, line, record and the kind of issue.",
 ["inputs", "configurations"], "all zone file sets", "The tests do not read the lint file.",
 [U, ZP, ZG, BIN], [("WriteIssueToFile, WriteRRIssueToFile, CheckGlueRecordsPresence", U + ", " + ZG)], ["lint.json"])
prop("C56", "A run that could not do its work does not exit successfully",
 "The program exits with status zero only if all jobs were checked and the output file was written. Missing or malformed metadata, jobs or zone files end the run with a message and a non-zero status.",
 ["inputs", "configurations"], "all inputs that make any stage fail", "The tests do not run the program itself.",
 [BIN, DR, ZP], [("main's exception handler, EXIT_FAILURE exits, sanity checks", BIN + ", " + DR)], ["exit status"])
prop("C57", "Each zone file is registered under the server and origin given for it",
 "Every zone file listed in the metadata that has a SOA record becomes a separate zone, hosted by the name server given for it, read with the origin given for it, and counted in the statistics; a file without a SOA record is ignored with an error message and hosts nothing. Every top name server listed is used as a starting point.",
 ["configurations", "inputs"], "all metadata files", "The examples have few zone files.",
 [DR, ZP], [("SetContext, MetadataSanityCheck, ParseZoneFileAndExtendGraphs", DR + ", " + ZP)], OUT)
prop("C58", "The default job checks the documented default properties on all names",
 "Without a jobs file, the root and all names below it are checked for hops, rewrites, delegation consistency, lame delegation, query rewriting and rewrite blackholing. With a jobs file every job in it is run, in order, over the domain and subdomain setting it gives.",
 ["configurations"], "all runs with and without a jobs file", "One test counts the default job's results.",
 [DR, BIN], [("SetJob(string), Main", DR + ", " + BIN)], OUT)
# ------------------------------------------------------------------ numerical / whole-system: not decided statically
prop("C90", "Reported violations correspond exactly to real DNS resolution behaviours",
 "For every set of zone files, GRoot reports a violation of a property if and only if some query in the job's name space can, under the DNS standards, be resolved by some choice of name servers in a way that violates the property.",
 ["inputs"], "all zone sets, queries and server choices", "End-to-end soundness and completeness against the DNS standards.",
 [IG, LG, ZG, PR], [("equivalence classes plus exhaustive resolution", LG)], OUT)
prop("C91", "Two names in one equivalence class behave the same",
 "For every set of zone files, any two query names that fall into the same generated class are resolved along the same paths with corresponding answers.",
 ["inputs"], "all zone sets and pairs of names", "A statement over pairs of executions on unbounded data.",
 [LG, IG], [("class generation", LG)], OUT)
prop("C92", "Analysis time stays proportional to zone and path count",
 "For zone files without rewrite recursion the number of classes is linear in the number of names, and the time to check a class is proportional to its number of resolution paths.",
 ["inputs"], "all zone sets", "A performance guarantee.",
 [LG, IG], [("hash index for large nodes, shared resolution results", ZG)], ["run time"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), max(len(p["title"]) for p in P))
