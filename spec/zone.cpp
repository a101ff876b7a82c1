// Reference meaning of the zone graph, written from the property statements (C07-C14, C55).
#include "interpretation-properties.h"
#include "vp.h"

namespace vp
{
using Z = zone::Graph;
using VD = Z::VertexDescriptor;
using Labels = vector<NodeLabel>;
using Types = std::bitset<RRType::N>;
using Answers = vector<zone::LookUpAnswer>;
using Records = vector<ResourceRecord>;

// the zone's own addresses of a name, C14
static void addresses(const Z &z, const ResourceRecord &ns, Records &out)
{
    int depth = 0;
    Labels name = LabelUtils::StringToLabels(ns.get_rdata());
    VD v = z.GetAncestor(z.root_, name, depth);
    if (name.size() == depth)
        for (const auto &rr : z[v].rrs)
            if (rr.get_type() == RRType::A || rr.get_type() == RRType::AAAA)
                out.push_back(rr);
}
void AddGlue(const Z &z, Records &ns)
{
    Records out;
    for (auto &n : ns) {
        out.push_back(n);
        addresses(z, n, out);
    }
    ns = out;
}
Records LookUpGlue(const Z &z, const Records &ns)
{
    Records out;
    for (auto &n : ns)
        addresses(z, n, out);
    return out;
}
bool RequireGlue(const Z &z, const Records &ns)
{
    for (auto &n : ns) {
        Labels name = LabelUtils::StringToLabels(n.get_rdata());
        bool under = name.size() >= z.origin_.size();
        for (int i = 0; under && i < z.origin_.size(); i++)
            if (z.origin_[i].get() != name[i].get())
                under = false;
        if (under)
            return true;
    }
    return false;
}

Types NodeTypes(const Z &, const Records &rrs)
{
    Types t;
    for (auto &r : rrs)
        t.set(r.get_type());
    return t;
}

// C10
static bool cut(const Types &t, bool labelsRemain)
{
    return (t[RRType::NS] && !t[RRType::SOA]) || (t[RRType::DNAME] && labelsRemain);
}
VD ClosestEncloser(const Z &z, VD v, const Labels &name, int &index)
{
    if (name.size() == index)
        return v;
    auto m = z.vertex_to_child_map_.find(v);
    if (m != z.vertex_to_child_map_.end()) {
        auto it = m->second.find(name[index]);
        if (it == m->second.end())
            return v;
        index++;
        if (cut(z.GetNodeRRTypes(z[it->second].rrs), name.size() != index))
            return it->second;
        return z.GetClosestEncloser(it->second, name, index);
    }
    for (VD c : boost::make_iterator_range(adjacent_vertices(v, z))) {
        if (z[c].name == name[index]) {
            index++;
            if (cut(z.GetNodeRRTypes(z[c].rrs), name.size() != index))
                return c;
            return z.GetClosestEncloser(c, name, index);
        }
    }
    return v;
}
// C09
VD Ancestor(const Z &z, VD v, const Labels &name, vector<VD> &large, int &index)
{
    if (name.size() == index)
        return v;
    auto m = z.vertex_to_child_map_.find(v);
    if (m != z.vertex_to_child_map_.end()) {
        auto it = m->second.find(name[index]);
        if (it == m->second.end())
            return v;
        index++;
        return z.GetAncestor(it->second, name, large, index);
    }
    if (out_degree(v, z) > kHashMapThreshold)
        large.push_back(v);
    for (VD c : boost::make_iterator_range(adjacent_vertices(v, z))) {
        if (z[c].name == name[index]) {
            index++;
            return z.GetAncestor(c, name, large, index);
        }
    }
    return v;
}
VD Ancestor3(const Z &z, VD v, const Labels &name, int &index)
{
    vector<VD> unused;
    return z.GetAncestor(v, name, unused, index);
}

void ChildMap(Z &z, const VD v)
{
    Z::LabelToVertex m;
    for (Z::EdgeDescriptor e : boost::make_iterator_range(out_edges(v, z)))
        m[z[e.m_target].name] = e.m_target;
    z.vertex_to_child_map_.insert({v, m});
}

// C07: returns what became of the record
tuple<zone::RRAddCode, boost::optional<VD>> AddRecord(Z &z, const ResourceRecord &r)
{
    int index = 0;
    Labels name = r.get_name();
    vector<VD> large;
    VD v = z.GetAncestor(z.root_, name, large, index);
    for (auto &l : large)
        z.ConstructChildLabelsToVertexDescriptorMap(l);
    VD n = z.AddNodes(v, name, index);
    for (auto &o : z[n].rrs) {
        bool same = o.get_type() == r.get_type();
        if (same && o.get_ttl() == r.get_ttl() && o.get_rdata() == r.get_rdata())
            return {zone::RRAddCode::DUPLICATE, {}};
        if (same && r.get_type() == RRType::CNAME)
            return {zone::RRAddCode::CNAME_MULTIPLE, n};
        if (same && r.get_type() == RRType::DNAME)
            return {zone::RRAddCode::DNAME_MULTIPLE, n};
        if (!same && (o.get_type() == RRType::CNAME || r.get_type() == RRType::CNAME))
            return {zone::RRAddCode::CNAME_OTHER, n};
    }
    z[n].rrs.push_back(r);
    if (r.get_type() == RRType::SOA) {
        z.origin_ = r.get_name();
        z.has_soa_ = true;
    }
    return {zone::RRAddCode::SUCCESS, n};
}

// C08
bool Membership(Z &z, const ResourceRecord &r, const string &)
{
    if (!z.has_soa_) {
        if (r.get_type() != RRType::SOA)
            exit(EXIT_FAILURE);
        return true;
    }
    return LabelUtils::SubDomainCheck(z.origin_, r.get_name());
}

// C13
bool Wildcard(const Z &z, VD v, Types &nodeTypes, Answers &answers, const EC &q)
{
    NodeLabel star{"*"};
    for (VD c : boost::make_iterator_range(adjacent_vertices(v, z))) {
        if (!(z[c].name == star))
            continue;
        Records found;
        Types types;
        for (auto &r : z[c].rrs) {
            if (r.get_type() == RRType::CNAME) {
                bool onlyCname = q.rrTypes[RRType::CNAME] && q.rrTypes.count() == 1;
                answers = {{onlyCname ? ReturnTag::ANS : ReturnTag::REWRITE, nodeTypes, Records{r}}};
                return true;
            }
            if (q.rrTypes[r.get_type()]) {
                found.push_back(r);
                types.set(r.get_type());
            }
        }
        if (types.any())
            answers.push_back({ReturnTag::ANS, types, found});
        Types rest = types ^ q.rrTypes;
        if (rest.any())
            answers.push_back({ReturnTag::ANS, rest, Records{}});
        return true;
    }
    return false;
}

static Records ofType(const Records &rrs, uint16_t t)
{
    Records out;
    for (auto &r : rrs)
        if (r.get_type() == t)
            out.push_back(r);
    return out;
}
static void dnames(const Records &rrs, const Types &t, Answers &out)
{
    for (auto &r : rrs)
        if (r.get_type() == RRType::DNAME)
            out.push_back({ReturnTag::REWRITE, t, Records{r}});
}
// C11, C12
boost::optional<Answers> LookUp(const Z &z, const EC &q, bool &complete)
{
    int index = 0;
    VD v = z.GetClosestEncloser(z.root_, q.name, index);
    Answers out;
    Types t = z.GetNodeRRTypes(z[v].rrs);
    if (q.name.size() != index || q.excluded) {
        complete = false;
        if (!t[RRType::SOA] && t[RRType::NS]) {
            Records ns = ofType(z[v].rrs, RRType::NS);
            if (ns.size()) {
                z.AddGlueRecords(ns);
                out.push_back({ReturnTag::REF, t, ns});
            }
        } else if (t[RRType::DNAME]) {
            dnames(z[v].rrs, t, out);
        } else if (z.WildcardMatch(v, t, out, q)) {
            complete = true;
        } else {
            out.push_back({ReturnTag::NX, q.rrTypes, Records{}});
        }
        return boost::make_optional(out);
    }
    complete = true;
    Records ns, found;
    Types types;
    for (auto &r : z[v].rrs) {
        if (r.get_type() == RRType::CNAME) {
            bool onlyCname = q.rrTypes[RRType::CNAME] && q.rrTypes.count() == 1;
            out.push_back({onlyCname ? ReturnTag::ANS : ReturnTag::REWRITE, t, Records{r}});
            return boost::make_optional(out);
        }
        if (r.get_type() == RRType::NS) {
            ns.push_back(r);
        } else if (q.rrTypes[r.get_type()]) {
            types.set(r.get_type());
            found.push_back(r);
        }
    }
    if (t[RRType::NS])
        z.AddGlueRecords(ns);
    if (t[RRType::NS] && !t[RRType::SOA]) {
        out.push_back({ReturnTag::REF, t, ns});
        return boost::make_optional(out);
    }
    if (q.rrTypes[RRType::NS] && ns.size()) {
        found.insert(found.end(), ns.begin(), ns.end());
        types.set(RRType::NS);
    }
    if (types.any())
        out.push_back({ReturnTag::ANS, types, found});
    Types rest = types ^ q.rrTypes;
    if (rest.any())
        out.push_back({ReturnTag::ANS, rest, Records{}});
    return boost::make_optional(out);
}

VD Nodes(Z &z, VD v, const Labels &labels, const int &index)
{
    for (int i = index; i < labels.size(); i++) {
        VD u = boost::add_vertex(z);
        z[u].name = labels[i];
        if (!boost::add_edge(v, u, z).second)
            exit(EXIT_FAILURE);
        auto it = z.vertex_to_child_map_.find(v);
        if (it != z.vertex_to_child_map_.end())
            it->second[labels[i]] = u;
        v = u;
    }
    return v;
}

// C55
void GluePresence(Z &z, VD v, const Nameserver &server)
{
    for (auto &r : z[v].rrs) {
        if (r.get_type() != RRType::NS)
            continue;
        Records one = {r};
        if (!z.RequireGlueRecords(one))
            continue;
        z.AddGlueRecords(one);
        if (one.size() == 1) {
            json j;
            j["Violation"] = "Missing Glue Record";
            j["Server"] = server.get();
            j["Zone"] = LabelUtils::LabelsToString(z.origin_);
            j["Resource Record"] = r.toString();
            LintUtils::WriteIssueToFile(j, true);
        }
    }
    for (VD c : boost::make_iterator_range(adjacent_vertices(v, z)))
        z.CheckGlueRecordsPresence(c, server);
}
} // namespace vp
