From 7655ce9676238686f6fdfd0b05267c458e9f86f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:44 +0000
Subject: [PATCH 01/20] fix: accept a root zone file (an empty origin does not
 mean the SOA is missing)

---
 src/zone-graph.cpp | 5 +++--
 src/zone-graph.h   | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/zone-graph.cpp b/src/zone-graph.cpp
index 9936d81..be185d7 100644
--- a/src/zone-graph.cpp
+++ b/src/zone-graph.cpp
@@ -127,6 +127,7 @@ tuple<zone::RRAddCode, boost::optional<zone::Graph::VertexDescriptor>> zone::Gra
     (*this)[node].rrs.push_back(record);
     if (record.get_type() == RRType::SOA) {
         origin_ = record.get_name();
+        has_soa_ = true;
     }
     return {RRAddCode::SUCCESS, node};
 }
@@ -138,9 +139,9 @@ void zone::Graph::CheckGlueRecordsPresence(const Nameserver &ns)
 
 bool zone::Graph::CheckZoneMembership(const ResourceRecord &record, const string &filename)
 {
-    if (record.get_type() == RRType::SOA && origin_.size() == 0) {
+    if (record.get_type() == RRType::SOA && !has_soa_) {
         return true;
-    } else if (origin_.size() == 0) {
+    } else if (!has_soa_) {
         Logger->critical(fmt::format(
             "zone-graph.cpp (CheckZoneMembership) - Non SOA record is written before a SOA record in the zone file {}",
             filename));
diff --git a/src/zone-graph.h b/src/zone-graph.h
index 289f0b1..a169c57 100644
--- a/src/zone-graph.h
+++ b/src/zone-graph.h
@@ -47,6 +47,7 @@ class Graph : public boost::adjacency_list<boost::vecS, boost::vecS, boost::dire
 
     int id_;
     vector<NodeLabel> origin_;
+    bool has_soa_ = false; // origin_ is empty for the root zone too, so it does not tell whether the SOA was seen
     zone::Graph::VertexDescriptor root_ = 0;
     std::unordered_map<zone::Graph::VertexDescriptor, LabelToVertex> vertex_to_child_map_;
 
-- 
2.43.0


From dc0ba98ca2368e8e837baa461b8320e679d99123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:27 +0000
Subject: [PATCH 02/20] fix: give DS a record type of its own (the parser
 accepts DS records)

---
 src/resource-record.h | 2 +-
 src/utils.cpp         | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/resource-record.h b/src/resource-record.h
index 97e424f..7f1092b 100644
--- a/src/resource-record.h
+++ b/src/resource-record.h
@@ -5,7 +5,7 @@
 
 enum RRClass { CLASS_IN = 1, CLASS_CH = 3 };
 
-enum RRType { A, NS, CNAME, DNAME, SOA, PTR, MX, TXT, AAAA, SRV, RRSIG, NSEC, SPF, N };
+enum RRType { A, NS, CNAME, DNAME, SOA, PTR, MX, TXT, AAAA, SRV, RRSIG, NSEC, SPF, DS, N };
 
 class ResourceRecord
 {
diff --git a/src/utils.cpp b/src/utils.cpp
index dff5a85..da41f7c 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -127,12 +127,14 @@ RRType TypeUtils::StringToType(const string &type)
         return NSEC;
     } else if (type == "SPF") {
         return SPF;
+    } else if (type == "DS") {
+        return DS;
     }
     return N;
 }
 
 string type_to_string[] = {"A",   "NS",   "CNAME", "DNAME", "SOA",  "PTR", "MX",
-                           "TXT", "AAAA", "SRV",   "RRSIG", "NSEC", "SPF"};
+                           "TXT", "AAAA", "SRV",   "RRSIG", "NSEC", "SPF", "DS"};
 
 string TypeUtils::TypeToString(RRType type)
 {
-- 
2.43.0


From c8ba17eb70c8e8a16e1c8286a431f124a6ab5b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:34 +0000
Subject: [PATCH 03/20] fix: exit with a failure status when the run ended with
 an exception

---
 bin/groot.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bin/groot.cpp b/bin/groot.cpp
index 11baf0c..5c1f7ec 100644
--- a/bin/groot.cpp
+++ b/bin/groot.cpp
@@ -173,5 +173,6 @@ int main(int argc, const char **argv)
     } catch (exception &e) {
         cout << "Exception:- " << e.what() << endl;
         spdlog::shutdown();
+        return EXIT_FAILURE;
     }
 }
\ No newline at end of file
-- 
2.43.0


From 3e3968909b1a1babe08434849c59a489a34bc18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:44 +0000
Subject: [PATCH 04/20] fix: do not carry the structural delegation check over
 to the next job

---
 src/driver.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/driver.cpp b/src/driver.cpp
index fe4902f..d7db724 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -220,6 +220,7 @@ void Driver::SetJob(const json &user_job)
     current_job_.check_subdomains = user_job["SubDomain"];
     current_job_.path_functions.clear();
     current_job_.node_functions.clear();
+    current_job_.check_structural_delegations = false;
     current_job_.types_req = {};
 
     for (auto &property : user_job["Properties"]) {
@@ -383,6 +384,7 @@ void Driver::SetJob(string &domain_name)
     current_job_.check_subdomains = true;
     current_job_.path_functions.clear();
     current_job_.node_functions.clear();
+    current_job_.check_structural_delegations = false;
     current_job_.types_req = {};
 
     current_job_.types_req.set(RRType::NS);
-- 
2.43.0


From 756315496872eed0ac6e9d6372cfea7b1a1c5d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:52 +0000
Subject: [PATCH 05/20] fix: report a zero TTL only for records of the
 requested types

---
 src/properties.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/properties.cpp b/src/properties.cpp
index 01a8f5e..b90a55c 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -218,7 +218,7 @@ void interpretation::Graph::Properties::ZeroTTL(
                 } else {
                     auto &rrs = std::get<2>(answer.get()[0]);
                     for (auto &r : rrs) {
-                        if (r.get_ttl() == 0) {
+                        if (r.get_ttl() == 0 && typesReq[r.get_type()]) {
                             json tmp;
                             tmp["Property"] = "Zero TTL";
                             tmp["Query"] = graph[end_nodes[0]].query.ToString();
-- 
2.43.0


From c4a62f01fdf7ad442f06aa85c268d18c64f9b45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:02 +0000
Subject: [PATCH 06/20] fix: compare ResponseValue values case-insensitively,
 as all names and rdata are

---
 src/driver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/driver.cpp b/src/driver.cpp
index d7db724..00f9a74 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -253,6 +253,7 @@ void Driver::SetJob(const json &user_job)
         } else if (name == "ResponseValue") {
             std::set<string> values;
             for (string v : property["Value"]) {
+                boost::to_lower(v);
                 values.insert(v);
             }
             if (values.size()) {
-- 
2.43.0


From 8ff71d2a6637ffea791b908b41a3866659442a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:12 +0000
Subject: [PATCH 07/20] fix: write the output and lint files also when a zone
 file is not valid UTF-8

---
 src/driver.cpp | 2 +-
 src/utils.cpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/driver.cpp b/src/driver.cpp
index 00f9a74..97863da 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -459,7 +459,7 @@ void Driver::WriteViolationsToFile(string output_file) const
     for (const json &j : property_violations_) {
         if (c != 0)
             ofs << ",\n";
-        ofs << j.dump(4);
+        ofs << j.dump(4, ' ', false, json::error_handler_t::replace);
         c++;
     }
     ofs << "\n]";
diff --git a/src/utils.cpp b/src/utils.cpp
index da41f7c..3f629db 100644
--- a/src/utils.cpp
+++ b/src/utils.cpp
@@ -207,7 +207,7 @@ void LintUtils::WriteIssueToFile(json &log_line, bool lint)
         std::ofstream out("lint.json", ios::app);
         if (i > 3)
             out << ",\n";
-        out << log_line.dump(4);
+        out << log_line.dump(4, ' ', false, json::error_handler_t::replace);
         out.close();
     }
 }
-- 
2.43.0


From 51788b6812c1b61add2817599e5cfcf665ca3396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:22 +0000
Subject: [PATCH 08/20] fix: reject a malformed Hops or Rewrites value when the
 job is read, not in a worker thread

---
 src/driver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/driver.cpp b/src/driver.cpp
index 97863da..28f5d77 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -271,14 +271,14 @@ void Driver::SetJob(const json &user_job)
                     string(user_job["Domain"])));
             }
         } else if (name == "Hops") {
-            auto l = [num_hops = property["Value"]](
+            auto l = [num_hops = property["Value"].get<int>()](
                          const interpretation::Graph &graph, const interpretation::Graph::Path &p,
                          moodycamel::ConcurrentQueue<json> &json_queue) {
                 interpretation::Graph::Properties::NumberOfHops(graph, p, json_queue, num_hops);
             };
             current_job_.path_functions.push_back(l);
         } else if (name == "Rewrites") {
-            auto l = [num_rewrites = property["Value"]](
+            auto l = [num_rewrites = property["Value"].get<int>()](
                          const interpretation::Graph &graph, const interpretation::Graph::Path &p,
                          moodycamel::ConcurrentQueue<json> &json_queue) {
                 interpretation::Graph::Properties::NumberOfRewrites(graph, p, json_queue, num_rewrites);
-- 
2.43.0


From c4fc5a7d30297c380c0d163e4c58a8865191eb9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:36 +0000
Subject: [PATCH 09/20] fix: give Task a virtual destructor, tasks are deleted
 through the base class

---
 src/task.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/task.h b/src/task.h
index 2931558..4553467 100644
--- a/src/task.h
+++ b/src/task.h
@@ -7,6 +7,7 @@
 class Task
 {
   public:
+    virtual ~Task() = default;
     virtual string PrintTaskType() = 0;
     virtual void Process(const Context &, vector<boost::any> &) = 0;
 };
-- 
2.43.0


From 33623f43feb2a8263a28cd3863c5b2abcc0df961 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:41 +0000
Subject: [PATCH 10/20] fix: set_class sets the class

---
 src/resource-record.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/resource-record.cpp b/src/resource-record.cpp
index 8dbed6c..d806286 100644
--- a/src/resource-record.cpp
+++ b/src/resource-record.cpp
@@ -66,7 +66,7 @@ void ResourceRecord::set_type(string type)
 
 void ResourceRecord::set_class(uint16_t class_)
 {
-    class_ = class_;
+    this->class_ = class_;
 }
 
 void ResourceRecord::set_ttl(uint32_t ttl)
-- 
2.43.0


From 6849383747db227624b261feab754b23c80bd3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:24 +0000
Subject: [PATCH 11/20] fix: a malformed $TTL, $ORIGIN or TTL field does not
 end the run

---
 src/zone-file-parser.cpp | 33 ++++++++++++++++++++++++++++++---
 1 file changed, 30 insertions(+), 3 deletions(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index e6a6724..48b39c4 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -97,6 +97,13 @@ struct Parser {
             if (paren_count == 0 && current_record.size() > 0) {
                 // Control entry $ORIGIN - Sets the origin for relative domain names
                 if (current_record[0].compare("$ORIGIN") == 0) {
+                    if (current_record.size() < 2) {
+                        Logger->error(fmt::format(
+                            "zone-file-parser.cpp (Parser()) - $ORIGIN without a domain name at line - {} in file - {}",
+                            l, mc.file_name));
+                        current_record.clear();
+                        return true;
+                    }
                     relative_domain_suffix = current_record[1];
                     boost::to_lower(relative_domain_suffix);
                     current_record.clear();
@@ -111,7 +118,17 @@ struct Parser {
                 }
                 // Control entry $TTL - The TTL for records without explicit TTL value
                 if (current_record[0].compare("$TTL") == 0) {
-                    default_values.set_ttl(std::stoi(current_record[1]));
+                    boost::optional<int> default_ttl;
+                    if (current_record.size() > 1) {
+                        default_ttl = ToInteger(current_record[1]);
+                    }
+                    if (default_ttl) {
+                        default_values.set_ttl(default_ttl.get());
+                    } else {
+                        Logger->error(fmt::format(
+                            "zone-file-parser.cpp (Parser()) - $TTL without a valid TTL at line - {} in file - {}", l,
+                            mc.file_name));
+                    }
                     current_record.clear();
                     return true;
                 }
@@ -170,8 +187,8 @@ struct Parser {
                             class_ = 3;
                         } else if (boost::iequals(field, "IN")) {
                             class_ = 1;
-                        } else if (isInteger(field)) {
-                            ttl = std::stoi(field);
+                        } else if (isInteger(field) && ToInteger(field)) {
+                            ttl = ToInteger(field).get();
                             if (default_values.get_ttl() == 0)
                                 default_values.set_ttl(ttl);
                         } else {
@@ -350,6 +367,16 @@ struct Parser {
         return index;
     }
 
+    // The value of the number s starts with, nothing if there is none or if it does not fit.
+    inline boost::optional<int> ToInteger(const std::string &s) const
+    {
+        try {
+            return std::stoi(s);
+        } catch (const std::logic_error &) {
+            return {};
+        }
+    }
+
     inline bool isInteger(const std::string &s) const
     {
         if (s.empty() || ((!isdigit(s[0])) && (s[0] != '-') && (s[0] != '+')))
-- 
2.43.0


From b76147bda5c4b907633a7777af7114b5429e942e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:36 +0000
Subject: [PATCH 12/20] fix: complete a relative $ORIGIN and the @ in a target
 with the current origin

---
 src/zone-file-parser.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index 48b39c4..e9ced6c 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -104,8 +104,12 @@ struct Parser {
                         current_record.clear();
                         return true;
                     }
-                    relative_domain_suffix = current_record[1];
-                    boost::to_lower(relative_domain_suffix);
+                    string new_origin = current_record[1];
+                    boost::to_lower(new_origin);
+                    if (!boost::algorithm::ends_with(new_origin, ".")) {
+                        new_origin = new_origin + "." + relative_domain_suffix;
+                    }
+                    relative_domain_suffix = new_origin;
                     current_record.clear();
                     return true;
                 }
@@ -231,7 +235,11 @@ struct Parser {
                         //	currentRecord.clear();
                         //	return false;
                         //}
-                        rdata = rdata + "." + relative_domain_suffix;
+                        if (rdata == "@" || boost::algorithm::ends_with(rdata, " @")) {
+                            rdata = rdata.substr(0, rdata.size() - 1) + relative_domain_suffix;
+                        } else {
+                            rdata = rdata + "." + relative_domain_suffix;
+                        }
                     }
                 }
                 boost::to_lower(rdata);
-- 
2.43.0


From 869fc114f8ff0a9b788ba6eae8781c5e97249ca2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:48 +0000
Subject: [PATCH 13/20] fix: do not drop the last record of a zone file that
 does not end in a newline

---
 src/zone-file-parser.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index e9ced6c..2960e93 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -420,6 +420,8 @@ int Driver::ParseZoneFileAndExtendGraphs(string file, string nameserver, string
 
     // get the zone file input as a string.
     string str(ReadFromFile(file.c_str()));
+    // A record is complete only at the end of its line, also on the last one.
+    str += "\n";
     char const *first = str.c_str();
     char const *last = &first[str.size()];
 
-- 
2.43.0


From 9097a578f4a4c172e82783198495c8bb55748bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 14/20] fix: accept domain names up to the 255 octets of RFC
 1035

---
 src/label-graph.cpp | 4 ++--
 src/node-label.h    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/label-graph.cpp b/src/label-graph.cpp
index 1a1e4de..f9dce44 100644
--- a/src/label-graph.cpp
+++ b/src/label-graph.cpp
@@ -465,7 +465,7 @@ void label::Graph::SubDomainECGeneration(
     for (NodeLabel &l : parent_domain_name) {
         len += l.get().length() + 1;
     }
-    if (len >= kMaxDomainLength || (len == (*this)[start].len && skipLabel)) {
+    if (len > kMaxDomainLength || (len == (*this)[start].len && skipLabel)) {
         //return if length exceedes or DNAME loop detected 
         //mostly likely turns out as cyclic zone dependecy so no need to report here
         return;
@@ -487,7 +487,7 @@ void label::Graph::SubDomainECGeneration(
     for (NodeLabel &l : name) {
         nodeLen += l.get().length() + 1;
     }
-    if (nodeLen >= kMaxDomainLength) {
+    if (nodeLen > kMaxDomainLength) {
         return;
     }
     (*this)[start].len = static_cast<int16_t>(nodeLen);
diff --git a/src/node-label.h b/src/node-label.h
index 3b4577e..4f4c939 100644
--- a/src/node-label.h
+++ b/src/node-label.h
@@ -28,7 +28,7 @@ using json = nlohmann::json;
 
 #define kHashMapThreshold 500
 #define kMaxLabelLength 63
-#define kMaxDomainLength 253
+#define kMaxDomainLength 254 // each label with its dot; with the root label it makes the 255 octets of RFC 1035
 
 struct Empty {
 };
-- 
2.43.0


From 1a208bbfdc5b166d4ca104ef4e29d1f0b6f1a8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 15/20] fix: run the EC generation of several closest enclosers
 one after the other, they share the len marks

---
 src/label-graph.cpp | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/src/label-graph.cpp b/src/label-graph.cpp
index f9dce44..cbafcb8 100644
--- a/src/label-graph.cpp
+++ b/src/label-graph.cpp
@@ -583,22 +583,16 @@ void label::Graph::GenerateECs(Job &current_job, const Context &context)
                 vector<NodeLabel> parent_domain_name = labels;
                 if (parent_domain_name.size())
                     parent_domain_name.pop_back();
-                vector<std::thread> ECproducers;
                 if (current_job.ec_queue.size_approx() != 0) {
                     Logger->warn(fmt::format(
                         "label-graph.cpp (GenerateECs) - The global EC queue is non-empty for {}",
                         current_job.user_input_domain));
                 }
-                // EC producer threads
+                // One encloser after the other: the traversals share the len marks of the label graph.
                 for (auto &encloser : closest_enclosers) {
-                    ECproducers.push_back(thread([&]() {
-                        SubDomainECGeneration(
-                            encloser.first, parent_domain_name, false, current_job, context,
-                            current_job.check_structural_delegations);
-                    }));
-                }
-                for (auto &t : ECproducers) {
-                    t.join();
+                    SubDomainECGeneration(
+                        encloser.first, parent_domain_name, false, current_job, context,
+                        current_job.check_structural_delegations);
                 }
             } else {
                 NodeEC(labels, current_job);
-- 
2.43.0


From f554f3c18751c84feaf7f81d414ce2268ea07d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:05 +0000
Subject: [PATCH 16/20] fix: query for NS when the properties of a job name no
 type at all

---
 src/driver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/driver.cpp b/src/driver.cpp
index 28f5d77..145d4cb 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -373,6 +373,10 @@ void Driver::SetJob(const json &user_job)
             current_job_.path_functions.push_back(interpretation::Graph::Properties::DNAMESubstitutionExceedesLength);
         }
     }
+    // A query without a type has no answer to look at.
+    if (current_job_.types_req.none()) {
+        current_job_.types_req.set(RRType::NS);
+    }
 }
 
 void Driver::SetJob(string &domain_name)
-- 
2.43.0


From ddaa447fe5c35341e7b7edd82f7588a437dc46e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:04 +0000
Subject: [PATCH 17/20] fix: take the closest parent also when one of the
 parent zones is the root zone

---
 src/label-graph.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/label-graph.cpp b/src/label-graph.cpp
index cbafcb8..64df17d 100644
--- a/src/label-graph.cpp
+++ b/src/label-graph.cpp
@@ -203,7 +203,7 @@ void label::Graph::CheckStructuralDelegationConsistency(
                     // Parents issue: For a domain - dns.foo.com.ar. the records can come from multiple sources like
                     // from com.ar. (glue record), foo.com.ar. (delegation) and dns.foo.com.ar (SOA) In such cases we
                     // get multiple parents which should not be accounted for.
-                    if (longest_parent.size()) {
+                    if (parents.size()) {
                         if (longest_parent == z.get_origin()) {
                             parents.push_back(std::make_tuple(
                                 std::get<0>(zoneId_vertexId_pair), z.LookUpGlueRecords(ns_records),
-- 
2.43.0


From c6d06913ab029402fbf5796299012bef604ed0f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:13 +0000
Subject: [PATCH 18/20] fix: compare the end points of ResponseConsistency by
 the requested types, and aliases only with the answers for CNAME

---
 src/properties.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/properties.cpp b/src/properties.cpp
index b90a55c..b0d9660 100644
--- a/src/properties.cpp
+++ b/src/properties.cpp
@@ -142,6 +142,16 @@ void interpretation::Graph::Properties::CheckSameResponseReturned(
                          (2) Nodes with the query requesting for CNAME (covers 1 too)
     */
     vector<VertexDescriptor> cname_end_nodes{};
+    // The query may ask for more types than this property does.
+    auto requested = [&typesReq](const vector<ResourceRecord> &records) {
+        vector<ResourceRecord> result;
+        for (auto &r : records) {
+            if (typesReq[r.get_type()]) {
+                result.push_back(r);
+            }
+        }
+        return result;
+    };
     for (auto vd : end_nodes) {
         if ((graph[vd].query.rrTypes & typesReq).count() > 0 && graph[vd].ns != "") {
             boost::optional<vector<zone::LookUpAnswer>> answer = graph[vd].answer;
@@ -150,14 +160,16 @@ void interpretation::Graph::Properties::CheckSameResponseReturned(
                     std::get<0>(answer.get()[0]) == ReturnTag::NSNOTFOUND) {
                     incomplete = true;
                 } else {
-                    if (graph[vd].query.rrTypes[RRType::CNAME]) {
+                    if (graph[vd].query.rrTypes[RRType::CNAME] && typesReq[RRType::CNAME]) {
                         cname_end_nodes.push_back(vd);
                     }
-                    if (!response) {
+                    if (std::get<0>(answer.get()[0]) == ReturnTag::REWRITE) {
+                        // Only an answer to the CNAME part of the query, compared below.
+                    } else if (!response) {
                         response = answer;
                     } else {
-                        CommonSymDiff diff =
-                            RRUtils::CompareRRs(std::get<2>(answer.get()[0]), std::get<2>(response.get()[0]));
+                        CommonSymDiff diff = RRUtils::CompareRRs(
+                            requested(std::get<2>(answer.get()[0])), requested(std::get<2>(response.get()[0])));
                         if (std::get<1>(diff).size() || std::get<2>(diff).size()) {
                             foundDiff = true;
                         }
@@ -181,8 +193,8 @@ void interpretation::Graph::Properties::CheckSameResponseReturned(
             } else {
                 // If only CNAME is requested then the answer will only have one element
                 // If CNAME and other types are requested then there might be a node with Rewrite
-                CommonSymDiff diff =
-                    RRUtils::CompareRRs(std::get<2>(graph[vd].answer.get()[0]), std::get<2>(response.get()[0]));
+                CommonSymDiff diff = RRUtils::CompareRRs(
+                    requested(std::get<2>(graph[vd].answer.get()[0])), requested(std::get<2>(response.get()[0])));
                 if (std::get<1>(diff).size() || std::get<2>(diff).size()) {
                     foundDiff = true;
                 }
-- 
2.43.0


From bbf235108b13ca9c4ac7118c09d4872abf1327f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:34 +0000
Subject: [PATCH 19/20] fix: exit with an error when the output file cannot be
 written

---
 src/driver.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/driver.cpp b/src/driver.cpp
index 145d4cb..27f4835 100644
--- a/src/driver.cpp
+++ b/src/driver.cpp
@@ -468,6 +468,10 @@ void Driver::WriteViolationsToFile(string output_file) const
     }
     ofs << "\n]";
     ofs.close();
+    if (!ofs) {
+        Logger->critical(fmt::format("driver.cpp (WriteViolationsToFile) - Unable to write to {}", output_file));
+        exit(EXIT_FAILURE);
+    }
     Logger->debug(fmt::format("driver.cpp (WriteViolationsToFile) - Output written to {}", output_file));
 }
 
-- 
2.43.0


From a02dd753964fbdb507e340d1a9e21b3b8ddd2e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:07 +0000
Subject: [PATCH 20/20] fix: an owner name spelled like a record type was taken
 for the type

---
 src/zone-file-parser.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/zone-file-parser.cpp b/src/zone-file-parser.cpp
index 2960e93..686a9c2 100644
--- a/src/zone-file-parser.cpp
+++ b/src/zone-file-parser.cpp
@@ -364,7 +364,8 @@ struct Parser {
         int i = 0;
         for (auto &field : current_record) {
             string f(field);
-            if (f.length() < 6) {
+            // The first field is the owner name (empty when the line starts with white space), whatever it looks like.
+            if (i > 0 && f.length() < 6) {
                 boost::to_upper(f);
                 if (std::find(std::begin(types), std::end(types), f) != std::end(types)) {
                     return i;
-- 
2.43.0

