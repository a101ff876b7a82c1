// Reference meaning of the checks in properties.cpp, written from the property statements (C30-C44).
#include "interpretation-properties.h"
#include "vp.h"

namespace vp
{
using G = interpretation::Graph;
using VD = G::VertexDescriptor;
using Queue = moodycamel::ConcurrentQueue<json>;
using Types = std::bitset<RRType::N>;
using Answer = vector<zone::LookUpAnswer>;

static bool tagIs(const G &g, VD v, ReturnTag t)
{
    return g[v].answer && std::get<0>(g[v].answer.get()[0]) == t;
}
static bool noInformation(const zone::LookUpAnswer &a)
{
    return std::get<0>(a) == ReturnTag::REFUSED || std::get<0>(a) == ReturnTag::NSNOTFOUND;
}

// C30
void ResponseReturned(const G &g, const vector<VD> &ends, Queue &out, Types req)
{
    for (auto v : ends) {
        if (g[v].query.nonExistent)
            return;
        if (!(g[v].query.rrTypes & req).any() || g[v].ns == "" || !g[v].answer)
            continue;
        if (noInformation(g[v].answer.get()[0]))
            continue;
        for (auto &a : g[v].answer.get()) {
            if (std::get<2>(a).empty() && (std::get<1>(a) & req).any()) {
                json r;
                r["Property"] = "ResponseReturned";
                r["Query"] = g[v].query.ToString();
                r["Violation"]["Types"] = TypeUtils::TypesToString(std::get<1>(a) & req);
                r["Violation"]["Nameserver"] = g[v].ns;
                out.enqueue(r);
            }
        }
    }
}

// C31
void ResponseValue(const G &g, const vector<VD> &ends, Queue &out, Types req, set<string> values)
{
    json report;
    for (auto v : ends) {
        if (!(g[v].query.rrTypes & req).any())
            continue;
        auto &a = g[v].answer.get()[0];
        if (noInformation(a) || std::get<0>(a) == ReturnTag::REF)
            continue;
        set<string> found;
        bool list;
        if (std::get<0>(a) == ReturnTag::NX || std::get<0>(a) == ReturnTag::YX) {
            list = true;
        } else {
            for (auto &rr : std::get<2>(a))
                if (req[rr.get_type()])
                    found.insert(rr.get_rdata());
            list = found != values;
        }
        if (list) {
            json j;
            j["Found"] = std::accumulate(found.begin(), found.end(), std::string{});
            j["Query"] = g[v].query.ToString();
            j["Nameserver"] = g[v].ns;
            report["Mismatches"].push_back(j);
        }
    }
    if (!report.empty()) {
        report["Expected"] = std::accumulate(values.begin(), values.end(), std::string{});
        report["Property"] = "Response Value";
        out.enqueue(report);
    }
}

// C32
static vector<ResourceRecord> ofTypes(const vector<ResourceRecord> &records, Types req)
{
    vector<ResourceRecord> out;
    for (auto &r : records)
        if (req[r.get_type()])
            out.push_back(r);
    return out;
}
static bool differ(const zone::LookUpAnswer &a, const zone::LookUpAnswer &b, Types req)
{
    auto d = RRUtils::CompareRRs(ofTypes(std::get<2>(a), req), ofTypes(std::get<2>(b), req));
    return !std::get<1>(d).empty() || !std::get<2>(d).empty();
}
void ResponseConsistency(const G &g, const vector<VD> &ends, Queue &out, Types req)
{
    vector<VD> aliases;
    boost::optional<Answer> first, firstAlias;
    bool different = false;
    for (auto v : ends) {
        if (!(g[v].query.rrTypes & req).any() || g[v].ns == "" || !g[v].answer || noInformation(g[v].answer.get()[0]))
            continue;
        if (g[v].query.rrTypes[RRType::CNAME] && req[RRType::CNAME])
            aliases.push_back(v);
        if (tagIs(g, v, ReturnTag::REWRITE))
            continue;
        if (!first)
            first = g[v].answer;
        else if (differ(g[v].answer.get()[0], first.get()[0], req))
            different = true;
    }
    for (auto v : aliases) {
        if (!firstAlias)
            firstAlias = g[v].answer;
        else if (std::get<0>(g[v].answer.get()[0]) != std::get<0>(firstAlias.get()[0]) || differ(g[v].answer.get()[0], firstAlias.get()[0], req))
            different = true;
    }
    if (different) {
        json r;
        r["Property"] = "Response Consistency";
        r["Query"] = g[ends[0]].query.ToString();
        out.enqueue(r);
    }
}

// C33
void ZeroTTL(const G &g, const vector<VD> &ends, Queue &out, Types req)
{
    for (auto v : ends) {
        if (!(g[v].query.rrTypes & req).any() || g[v].ns == "" || !g[v].answer)
            continue;
        auto &a = g[v].answer.get()[0];
        if (noInformation(a))
            continue;
        for (auto rr : std::get<2>(a)) {
            if (rr.get_ttl() == 0 && req[rr.get_type()]) {
                json r;
                r["Property"] = "Zero TTL";
                r["Query"] = g[ends[0]].query.ToString();
                r["Violation"]["Nameserver"] = g[v].ns;
                r["Violation"]["Record"] = rr.toString();
                out.enqueue(r);
            }
        }
    }
}

// C34
void AllAliases(const G &g, const G::Path &p, Queue &out, vector<vector<NodeLabel>> canonical)
{
    for (size_t i = 0; i < p.size(); i++) {
        for (size_t j = i + 1; j < p.size(); j++) {
            if (!tagIs(g, p[i], ReturnTag::REWRITE) || g[p[j]].query.excluded)
                continue;
            bool isCanonical = false;
            for (auto &c : canonical)
                if (c == g[p[j]].query.name)
                    isCanonical = true;
            if (isCanonical) {
                json r;
                r["Property"] = "All Aliases";
                r["Query"] = g[p[i]].query.ToString();
                r["Canonical Name"] = g[p[j]].query.ToString();
                out.enqueue(r);
            }
        }
    }
}

// C35
void DelegationConsistency(const G &g, const G::Path &p, Queue &out)
{
    if (p.size() <= 2 || g[p[0]].ns != "")
        return;
    int last = -1;
    for (int i = 0; i + 1 < (int)p.size(); i++) {
        if (!tagIs(g, p[i], ReturnTag::REF) || !tagIs(g, p[i + 1], ReturnTag::ANS))
            continue;
        auto &child = g[p[i + 1]].answer.get()[0];
        if (std::get<1>(child)[RRType::NS] && !std::get<2>(child).empty() && g[p[0]].query.name == g[p[i + 1]].query.name)
            last = i;
    }
    if (last == -1)
        return;
    vector<ResourceRecord> parentNS, parentGlue, childNS, childGlue;
    for (auto &r : std::get<2>(g[p[last]].answer.get()[0])) {
        if (r.get_type() == RRType::NS)
            parentNS.push_back(r);
        if (r.get_type() == RRType::A || r.get_type() == RRType::AAAA)
            parentGlue.push_back(r);
    }
    for (auto &r : std::get<2>(g[p[last + 1]].answer.get()[0])) {
        if (r.get_type() == RRType::NS)
            childNS.push_back(r);
        if (r.get_type() == RRType::A || r.get_type() == RRType::AAAA)
            childGlue.push_back(r);
    }
    if (parentNS.size() && childNS.size() && parentNS[0].get_name() != childNS[0].get_name())
        return;
    if (childNS.size()) {
        // glue of servers outside the child is needed by the parent only
        for (auto it = parentGlue.begin(); it != parentGlue.end();) {
            if (LabelUtils::SubDomainCheck(childNS[0].get_name(), it->get_name()))
                ++it;
            else
                it = parentGlue.erase(it);
        }
    }
    CommonSymDiff ns = RRUtils::CompareRRs(parentNS, childNS);
    CommonSymDiff glue = RRUtils::CompareRRs(parentGlue, childGlue);
    json r;
    r["Property"] = "Delegation Consistency";
    r["Query"] = g[p[0]].query.ToString();
    r["Violation"]["Nameserver1"] = g[p[last]].ns;
    r["Violation"]["Nameserver2"] = g[p[last + 1]].ns;
    if (!std::get<1>(ns).empty() || !std::get<2>(ns).empty()) {
        json n = r;
        n["Violation"]["InconsistencyType"] = "NS";
        out.enqueue(n);
    }
    if (!std::get<1>(glue).empty() || !std::get<2>(glue).empty()) {
        json n = r;
        n["Violation"]["InconsistencyType"] = "Glue";
        out.enqueue(n);
    }
}

// C36
void LameDelegation(const G &g, const G::Path &p, Queue &out)
{
    if (p.size() <= 2 || g[p[0]].ns != "")
        return;
    for (size_t i = 0; i + 1 < p.size(); i++) {
        if (tagIs(g, p[i], ReturnTag::REF) && tagIs(g, p[i + 1], ReturnTag::REFUSED) &&
            g[p[0]].query.name == g[p[i + 1]].query.name) {
            json r;
            r["Property"] = "Lame Delegation";
            r["Query"] = g[p[0]].query.ToString();
            r["Violation"]["Nameserver1"] = g[p[i]].ns;
            r["Violation"]["Nameserver2"] = g[p[i + 1]].ns;
            out.enqueue(r);
        }
    }
}

// C42
void DNAMELength(const G &g, const G::Path &p, Queue &out)
{
    if (tagIs(g, p.back(), ReturnTag::YX)) {
        json r;
        r["Property"] = "DNAME Substitution exceeds length";
        r["Query"] = g[p[0]].query.ToString();
        r["Violation"]["RewriteTarget"] = g[p.back()].query.ToString();
        r["Violation"]["Nameserver"] = g[p.back()].ns;
        out.enqueue(r);
    }
}

// C40
void NameServerContact(const G &g, const G::Path &p, Queue &out, vector<vector<NodeLabel>> allowed)
{
    for (auto v : p) {
        if (g[v].ns == "" || LabelUtils::SubDomainCheck(allowed, LabelUtils::StringToLabels(g[v].ns)))
            continue;
        json r;
        r["Property"] = "Name Server Contact";
        r["Query"] = g[v].query.ToString();
        r["Violation"]["ExternalNameserver"] = g[v].ns;
        r["Violation"]["AllowedDomains"] = LabelUtils::LabelsToString(allowed);
        out.enqueue(r);
    }
}

// C37
void Hops(const G &g, const G::Path &p, Queue &out, int allowed)
{
    vector<string> runs;
    for (auto v : p) {
        if (g[v].ns == "")
            continue;
        if (runs.empty() || runs.back() != g[v].ns)
            runs.push_back(g[v].ns);
    }
    if (runs.size() > allowed) {
        json r;
        r["Property"] = "Hops";
        r["Query"] = g[p[0]].query.ToString();
        r["Violation"]["ActualHops"] = runs.size();
        r["Violation"]["MaxAllowedHops"] = allowed;
        out.enqueue(r);
    }
}

// C38
void Rewrites(const G &g, const G::Path &p, Queue &out, int allowed)
{
    int n = 0;
    for (auto v : p)
        if (g[v].ns != "" && std::get<0>(g[v].answer.get()[0]) == ReturnTag::REWRITE)
            n++;
    if (n > allowed) {
        json r;
        r["Property"] = "Rewrites";
        r["Query"] = g[p[0]].query.ToString();
        r["Violation"]["ActualRewrites"] = n;
        r["Violation"]["MaxAllowedRewrites"] = allowed;
        out.enqueue(r);
    }
}

// C39
void QueryRewrite(const G &g, const G::Path &p, Queue &out, vector<vector<NodeLabel>> allowed)
{
    for (size_t i = 0; i + 1 < p.size(); i++) {
        if (tagIs(g, p[i], ReturnTag::REWRITE) && !LabelUtils::SubDomainCheck(allowed, g[p[i + 1]].query.name)) {
            json r;
            r["Property"] = "Query Rewrite";
            r["Query"] = g[p[i]].query.ToString();
            r["Violation"]["RewriteTarget"] = g[p[i + 1]].query.ToString();
            r["Violation"]["Nameserver"] = g[p[i]].ns;
            r["Violation"]["ExpectedUnder"] = LabelUtils::LabelsToString(allowed);
            out.enqueue(r);
        }
    }
}

// C41
void RewriteBlackholing(const G &g, const G::Path &p, Queue &out)
{
    for (size_t i = 0; i < p.size(); i++) {
        if (!tagIs(g, p[i], ReturnTag::REWRITE))
            continue;
        if (i + 1 < p.size() && std::get<0>(g[p.back()].answer.get()[0]) == ReturnTag::NX) {
            json r;
            r["Property"] = "Rewrite Blackholing";
            r["Query"] = g[p[i]].query.ToString();
            r["Violation"]["RewriteTarget"] = g[p.back()].query.ToString();
            r["Violation"]["BlackholeNameserver"] = g[p.back()].ns;
            out.enqueue(r);
        }
        return;
    }
}

// C43
void InfiniteDName(const G &g, const G::Path &p, Queue &out)
{
    std::unordered_map<const ResourceRecord, tuple<uint32_t, string>, rrHash> used;
    for (int i = 0; i < p.size(); i++) {
        if (!tagIs(g, p[i], ReturnTag::REWRITE))
            continue;
        for (auto &a : g[p[i]].answer.get()) {
            for (const ResourceRecord &rr : std::get<2>(a)) {
                auto it = used.find(rr);
                if (it == used.end()) {
                    used.insert({rr, std::make_tuple(uint32_t(g[p[i]].query.name.size()), g[p[i]].query.ToString())});
                    continue;
                }
                if (g[p[i]].query.name.size() >= std::get<0>(it->second)) {
                    json r;
                    r["Property"] = "Infinite DName Recursion";
                    r["Query1"] = std::get<1>(it->second);
                    r["Query2"] = g[p[i]].query.ToString();
                    int n = 1;
                    for (const auto &[record, use] : used) {
                        r["RRsUsed"]["RR" + to_string(n)] = ResourceRecord(record).toString();
                        n++;
                    }
                    out.enqueue(r);
                    return;
                }
                it->second = std::make_tuple(uint32_t(g[p[i]].query.name.size()), g[p[i]].query.ToString());
            }
        }
    }
}
} // namespace vp
