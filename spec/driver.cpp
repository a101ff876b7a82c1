// Reference meaning of jobs and of the run as a whole, written from the property statements (C50-C58).
#include <boost/algorithm/string.hpp>
#include <boost/filesystem.hpp>

#include "driver.h"
#include "ec-task.h"
#include "structural-task.h"
#include "vp.h"

void MetadataSanityCheck(const json &metadata, string directory);

namespace vp
{
using G = interpretation::Graph;
using P = interpretation::Graph::Properties;
using Path = G::Path;
using Ends = vector<G::VertexDescriptor>;
using Queue = moodycamel::ConcurrentQueue<json>;
using Labels = vector<NodeLabel>;

// C51: nothing of an earlier job is left
void Fresh(Job &job, string domain, bool subdomains)
{
    job.stats.ec_count = 0;
    job.stats.interpretation_edges.clear();
    job.stats.interpretation_vertices.clear();
    job.path_functions.clear();
    job.node_functions.clear();
    job.check_structural_delegations = false;
    job.types_req = {};
    job.user_input_domain = domain;
    job.check_subdomains = subdomains;
}

// C58: the properties that are checked without a job file
void DefaultJob(Driver &driver, string &domain)
{
    boost::to_lower(domain);
    Job &job = driver.current_job_;
    Fresh(job, domain, true);
    job.types_req.set(RRType::NS);
    job.path_functions.push_back([](const G &g, const Path &p, Queue &q) { P::NumberOfHops(g, p, q, 2); });
    job.path_functions.push_back([](const G &g, const Path &p, Queue &q) { P::NumberOfRewrites(g, p, q, 1); });
    job.path_functions.push_back([](const G &g, const Path &p, Queue &q) { P::CheckDelegationConsistency(g, p, q); });
    job.path_functions.push_back([](const G &g, const Path &p, Queue &q) { P::CheckLameDelegation(g, p, q); });
    job.path_functions.push_back([d = vector<Labels>{LabelUtils::StringToLabels(domain)}](const G &g, const Path &p, Queue &q) {
        P::QueryRewrite(g, p, q, d);
    });
    job.path_functions.push_back([](const G &g, const Path &p, Queue &q) { P::RewriteBlackholing(g, p, q); });
}

// C50, C51: a job of the job file
vector<Labels> Names(const json &values)
{
    vector<Labels> names;
    for (string v : values) {
        boost::to_lower(v);
        names.push_back(LabelUtils::StringToLabels(v));
    }
    return names;
}
void UserJob(Driver &driver, const json &user)
{
    string domain = string(user["Domain"]);
    boost::to_lower(domain);
    Job &job = driver.current_job_;
    bool subdomains = user["SubDomain"];
    Fresh(job, domain, subdomains);
    for (auto &property : user["Properties"]) {
        string name = property["PropertyName"];
        std::bitset<RRType::N> types;
        if (property.find("Types") != property.end()) {
            for (auto t : property["Types"]) {
                types.set(TypeUtils::StringToType(t));
                job.types_req.set(TypeUtils::StringToType(t));
            }
        } else
            job.types_req.set(RRType::NS);

        if (name == "ResponseConsistency")
            job.node_functions.push_back(
                [=](const G &g, const Ends &e, Queue &q) { P::CheckSameResponseReturned(g, e, q, types); });
        if (name == "ResponseReturned")
            job.node_functions.push_back(
                [=](const G &g, const Ends &e, Queue &q) { P::CheckResponseReturned(g, e, q, types); });
        if (name == "ZeroTTL")
            job.node_functions.push_back([=](const G &g, const Ends &e, Queue &q) { P::ZeroTTL(g, e, q, types); });
        if (name == "ResponseValue") {
            std::set<string> values;
            for (string v : property["Value"]) {
                boost::to_lower(v);
                values.insert(v);
            }
            if (!values.empty())
                job.node_functions.push_back(
                    [=](const G &g, const Ends &e, Queue &q) { P::CheckResponseValue(g, e, q, types, values); });
        }
        if (name == "Hops")
            job.path_functions.push_back([n = property["Value"].get<int>()](const G &g, const Path &p, Queue &q) {
                P::NumberOfHops(g, p, q, n);
            });
        if (name == "Rewrites")
            job.path_functions.push_back([n = property["Value"].get<int>()](const G &g, const Path &p, Queue &q) {
                P::NumberOfRewrites(g, p, q, n);
            });
        if (name == "DelegationConsistency")
            job.path_functions.push_back(
                [](const G &g, const Path &p, Queue &q) { P::CheckDelegationConsistency(g, p, q); });
        if (name == "InfiniteDNameRec")
            job.path_functions.push_back([](const G &g, const Path &p, Queue &q) { P::InfiniteDName(g, p, q); });
        if (name == "LameDelegation")
            job.path_functions.push_back([](const G &g, const Path &p, Queue &q) { P::CheckLameDelegation(g, p, q); });
        if (name == "RewriteBlackholing")
            job.path_functions.push_back([](const G &g, const Path &p, Queue &q) { P::RewriteBlackholing(g, p, q); });
        if (name == "DNAMESubstitutionCheck")
            job.path_functions.push_back(
                [](const G &g, const Path &p, Queue &q) { P::DNAMESubstitutionExceedesLength(g, p, q); });
        if (name == "QueryRewrite") {
            vector<Labels> names = Names(property["Value"]);
            if (!names.empty())
                job.path_functions.push_back(
                    [=](const G &g, const Path &p, Queue &q) { P::QueryRewrite(g, p, q, names); });
        }
        if (name == "NameserverContact") {
            vector<Labels> names = Names(property["Value"]);
            if (!names.empty())
                job.path_functions.push_back(
                    [=](const G &g, const Path &p, Queue &q) { P::NameServerContact(g, p, q, names); });
        }
        if (name == "AllAliases") {
            vector<Labels> names = Names(property["Value"]);
            if (!names.empty())
                job.path_functions.push_back([=](const G &g, const Path &p, Queue &q) { P::AllAliases(g, p, q, names); });
        }
        if (name == "StructuralDelegationConsistency")
            job.check_structural_delegations = true;
    }
    if (job.types_req.none())
        job.types_req.set(RRType::NS);
}

// C56, C57: a run starts only when the description names the servers, and every zone file exists
void Sane(const json &metadata, string directory)
{
    if (metadata.count("TopNameServers") != 1)
        exit(EXIT_FAILURE);
    std::unordered_set<string> top, servers;
    for (auto &s : metadata["TopNameServers"]) {
        string t = string(s);
        boost::to_lower(t);
        top.insert(t);
    }
    if (metadata.count("ZoneFiles") != 1)
        exit(EXIT_FAILURE);
    for (auto &zone : metadata["ZoneFiles"]) {
        if (zone.count("FileName") != 1 || zone.count("NameServer") != 1)
            exit(EXIT_FAILURE);
        string ns = string(zone["NameServer"]);
        boost::to_lower(ns);
        servers.insert(ns);
        string file;
        zone["FileName"].get_to(file);
        if (!boost::filesystem::exists((boost::filesystem::path{directory} / boost::filesystem::path{file}).string()))
            exit(EXIT_FAILURE);
    }
    for (auto &t : top)
        if (servers.find(t) != servers.end())
            return;
    exit(EXIT_FAILURE);
}

// C57: every zone file is read for the server it is listed with, every top server is known
long Context_(Driver &driver, const json &metadata, string directory, bool lint)
{
    MetadataSanityCheck(metadata, directory);
    for (auto &s : metadata["TopNameServers"]) {
        string t = string(s);
        boost::to_lower(t);
        driver.context_.top_nameservers.push_back(t);
    }
    long count = 0;
    for (auto &zone : metadata["ZoneFiles"]) {
        string file;
        zone["FileName"].get_to(file);
        string ns = string(zone["NameServer"]);
        boost::to_lower(ns);
        string origin = "";
        if (zone.count("Origin"))
            origin = string(zone["Origin"]);
        boost::to_lower(origin);
        count += driver.ParseZoneFileAndExtendGraphs(
            (boost::filesystem::path{directory} / boost::filesystem::path{file}).string(), ns, origin, lint);
    }
    if (lint)
        for (auto &[id, z] : driver.context_.zoneId_to_zone)
            z.CheckGlueRecordsPresence(driver.context_.zoneId_nameserver_map.at(id));
    return count;
}

// C54: the violations found, each once, as a JSON array; C56: or the run fails
void Output_(const Driver &driver, string file)
{
    string text = "[\n";
    bool first = true;
    for (const json &violation : driver.property_violations_) {
        if (!first)
            text += ",\n";
        text += violation.dump(4, ' ', false, json::error_handler_t::replace);
        first = false;
    }
    text += "\n]";
    std::ofstream out(file);
    out << text;
    out.close();
    if (out.fail())
        exit(EXIT_FAILURE);
}

// C34, C54: every report is kept once; the names rewritten to one canonical name are reported together
void Collected(Driver &d, vector<json> reports)
{
    std::unordered_map<string, set<string>> aliases;
    for (auto report : reports)
        if (string(report["Property"]) == "All Aliases") {
            string canonical = string(report["Canonical Name"]);
            if (aliases.find(canonical) == aliases.end())
                aliases[canonical] = {};
            aliases[canonical].insert(string(report["Query"]));
        } else {
            d.property_violations_.insert(report);
        }
    if (aliases.empty())
        return;
    json all;
    all["Property"] = "All Aliases";
    all["Canonical Name and their Aliases"] = {};
    for (auto &a : aliases) {
        json one;
        one["Canonical Name"] = a.first;
        one["Aliases"] = a.second;
        all["Canonical Name and their Aliases"].push_back(one);
    }
    d.property_violations_.insert(all);
}

// C26, C44: every task is carried out once, in the context of the run, with the job and for tasks on the label graph that graph
void Worked(Driver &d, vector<unique_ptr<Task>> tasks)
{
    vector<boost::any> job, structure;
    job.push_back(&d.current_job_);
    structure.push_back(&d.current_job_);
    structure.push_back(&d.label_graph_);
    for (auto &task : tasks) {
        if (dynamic_cast<ECTask *>(task.get()))
            task->Process(d.context_, job);
        else if (dynamic_cast<StructuralTask *>(task.get()))
            task->Process(d.context_, structure);
    }
}
void Measured(Driver &d, vector<tuple<int, int>> sizes)
{
    for (auto &s : sizes) {
        d.current_job_.stats.interpretation_vertices.push_back(std::get<0>(s));
        d.current_job_.stats.interpretation_edges.push_back(std::get<1>(s));
    }
}
} // namespace vp
