// Reference meaning of the label graph, written from the property statements (C09, C15-C18, C44).
#include "ec-task.h"
#include "structural-task.h"
#include "utils.h"
#include "vp.h"

namespace vp
{
using L = label::Graph;
using VD = L::VertexDescriptor;
using Labels = vector<NodeLabel>;
using Node = L::ClosestNode;

// C09, C15
VD LAncestor(const L &g, VD v, const Labels &name, vector<VD> &large, int &index)
{
    if (name.size() == index)
        return v;
    auto m = g.vertex_to_child_map_.find(v);
    if (m != g.vertex_to_child_map_.end()) {
        auto it = m->second.find(name[index]);
        if (it == m->second.end())
            return v;
        index++;
        return g.GetAncestor(it->second, name, large, index);
    }
    if (out_degree(v, g) > kHashMapThreshold)
        large.push_back(v);
    for (L::EdgeDescriptor e : boost::make_iterator_range(out_edges(v, g))) {
        if (g[e].type == label::normal && g[e.m_target].name == name[index]) {
            index++;
            return g.GetAncestor(e.m_target, name, large, index);
        }
    }
    return v;
}
void LChildMap(L &g, VD v)
{
    L::LabelToVertex m;
    for (L::EdgeDescriptor e : boost::make_iterator_range(out_edges(v, g)))
        if (g[e].type == label::normal)
            m[g[e.m_target].name] = e.m_target;
    g.vertex_to_child_map_.insert({v, m});
}
VD LNodes(L &g, VD v, const Labels &labels, int &index)
{
    for (int i = index; i < labels.size(); i++) {
        VD u = boost::add_vertex(g);
        g[u].name = labels[i];
        auto r = boost::add_edge(v, u, g);
        if (!r.second)
            exit(EXIT_FAILURE);
        g[r.first].type = label::normal;
        auto it = g.vertex_to_child_map_.find(v);
        if (it != g.vertex_to_child_map_.end())
            it->second[labels[i]] = u;
        v = u;
    }
    return v;
}

static VD place(L &g, const Labels &name)
{
    int index = 0;
    vector<VD> large;
    VD v = g.GetAncestor(g.root_, name, large, index);
    for (auto &l : large)
        g.ConstructChildLabelsToVertexDescriptorMap(l);
    return g.AddNodes(v, name, index);
}
// C15
void LRecord(L &g, const ResourceRecord &r, const int &zone, zone::Graph::VertexDescriptor vertex)
{
    if (r.get_type() == RRType::N)
        return;
    VD owner = place(g, r.get_name());
    if (r.get_type() == RRType::DNAME) {
        VD target = place(g, LabelUtils::StringToLabels(r.get_rdata()));
        bool there = false;
        for (const L::EdgeDescriptor &e : boost::make_iterator_range(out_edges(owner, g)))
            if (g[e].type == label::dname && e.m_target == target)
                there = true;
        if (!there) {
            auto a = boost::add_edge(owner, target, g);
            if (!a.second)
                exit(EXIT_FAILURE);
            g[a.first].type = label::dname;
        }
    }
    bool known = false;
    for (auto &zv : g[owner].zoneId_vertexId)
        if (std::get<0>(zv) == zone && std::get<1>(zv) == vertex)
            known = true;
    if (!known)
        g[owner].zoneId_vertexId.push_back(std::make_tuple(zone, vertex));
    g[owner].rrtypes_available.set(r.get_type());
}

// C16
vector<Node> Search(L &g, VD v, const Labels &labels, int index)
{
    if (labels.size() == index)
        return {Node{v, index}};
    if (index == g[v].len)
        return {Node{v, -1}};
    int16_t before = g[v].len;
    g[v].len = index;
    vector<Node> all{Node{v, index}};
    for (L::EdgeDescriptor e : boost::make_iterator_range(out_edges(v, g))) {
        if (g[e].type == label::dname) {
            auto r = g.SearchNode(e.m_target, labels, index);
            all.insert(all.end(), r.begin(), r.end());
        }
    }
    auto m = g.vertex_to_child_map_.find(v);
    if (m != g.vertex_to_child_map_.end()) {
        auto it = m->second.find(labels[index]);
        if (it != m->second.end()) {
            auto r = g.SearchNode(it->second, labels, index + 1);
            all.insert(all.end(), r.begin(), r.end());
        }
    } else {
        for (L::EdgeDescriptor e : boost::make_iterator_range(out_edges(v, g))) {
            if (g[e].type == label::normal && g[e.m_target].name == labels[index]) {
                auto r = g.SearchNode(e.m_target, labels, index + 1);
                all.insert(all.end(), r.begin(), r.end());
                break;
            }
        }
    }
    g[v].len = before;
    int max = -1;
    for (auto &r : all)
        if (r.second > max)
            max = r.second;
    vector<Node> longest;
    if (max != -1)
        for (auto &r : all)
            if (r.second == max)
                longest.push_back(r);
    return longest;
}

vector<Node> Enclosers(L &g, const Labels &labels)
{
    return g.SearchNode(g.root_, labels, 0);
}

// C17
void ClassOf(const L &, const Labels &name, Job &job)
{
    unique_ptr<ECTask> t = make_unique<ECTask>();
    t->ec_.name = name;
    t->ec_.rrTypes = job.types_req;
    job.ec_queue.enqueue(std::move(t));
}
void ClassOfWildcard(const L &, vector<NodeLabel> &children, const Labels &labels, int n, Job &job)
{
    unique_ptr<ECTask> t = make_unique<ECTask>();
    for (int i = 0; i < n; i++)
        t->ec_.name.push_back(labels[i]);
    t->ec_.rrTypes = job.types_req;
    t->ec_.excluded = boost::make_optional(children);
    job.ec_queue.enqueue(std::move(t));
}
static size_t octets(const Labels &name)
{
    size_t n = 0;
    for (const NodeLabel &l : name)
        n += l.get().length() + 1;
    return n;
}
void SubDomains(L &g, VD v, Labels parent, bool skip, Job &job, const Context &context, bool structural)
{
    size_t len = octets(parent);
    if (len > kMaxDomainLength || (skip && len == g[v].len))
        return;
    Labels name = parent;
    if (g[v].name.get() != "." && (parent.empty() || !skip))
        name.push_back(g[v].name);
    int16_t before = g[v].len;
    size_t own = octets(name);
    if (own > kMaxDomainLength)
        return;
    g[v].len = static_cast<int16_t>(own);
    vector<NodeLabel> children;
    if (structural) {
        unique_ptr<StructuralTask> s = make_unique<StructuralTask>(v, LabelUtils::LabelsToString(name));
        job.ec_queue.enqueue(std::move(s));
    }
    bool wildcard = false;
    for (L::EdgeDescriptor e : boost::make_iterator_range(out_edges(v, g))) {
        if (g[e].type == label::normal) {
            if (g[e.m_target].name.get() == "*")
                wildcard = true;
            g.SubDomainECGeneration(e.m_target, name, false, job, context, structural);
        }
        if (g[e].type == label::dname)
            g.SubDomainECGeneration(e.m_target, name, true, job, context, false);
    }
    g[v].len = before;
    if (!skip)
        g.NodeEC(name, job);
    if (wildcard) {
        g.WildcardChildEC(children, name, static_cast<int>(name.size()), job);
        return;
    }
    unique_ptr<ECTask> t = make_unique<ECTask>();
    t->ec_.name = name;
    t->ec_.rrTypes.flip();
    t->ec_.excluded = boost::make_optional(children);
    t->ec_.nonExistent = true;
    job.ec_queue.enqueue(std::move(t));
}
void Generate(L &g, Job &job, const Context &context)
{
    Labels labels = LabelUtils::StringToLabels(job.user_input_domain);
    if (!std::get<0>(LabelUtils::LengthCheck(labels, 2)))
        return;
    vector<Node> found = g.ClosestEnclosers(labels);
    if (found.empty())
        exit(EXIT_FAILURE);
    int depth = found[0].second;
    for (auto &f : found)
        if (f.second != depth)
            exit(EXIT_FAILURE);
    if (labels.size() == depth) {
        if (!job.check_subdomains) {
            g.NodeEC(labels, job);
        } else {
            Labels parent = labels;
            if (!parent.empty())
                parent.pop_back();
            for (auto &f : found)
                g.SubDomainECGeneration(f.first, parent, false, job, context, job.check_structural_delegations);
        }
    } else {
        unique_ptr<ECTask> t = make_unique<ECTask>();
        for (int i = 0; i < depth; i++)
            t->ec_.name.push_back(labels[i]);
        t->ec_.rrTypes = job.types_req;
        t->ec_.excluded = boost::make_optional(vector<NodeLabel>());
        job.ec_queue.enqueue(std::move(t));
    }
    job.finished_ec_generation = true;
}

// C44
using Records = vector<ResourceRecord>;
using Delegation = L::ZoneIdGlueNSRecords;
void Structural(L &g, string user_input, VD v, const Context &context, Job &job)
{
    if (!g[v].rrtypes_available[RRType::NS])
        return;
    vector<Delegation> parents, children;
    Labels child, parent;
    for (auto zv : g[v].zoneId_vertexId) {
        auto f = context.zoneId_to_zone.find(std::get<0>(zv));
        if (f == context.zoneId_to_zone.end())
            exit(EXIT_FAILURE);
        const zone::Graph &z = f->second;
        Records ns;
        bool apex = false;
        for (auto &r : z[std::get<1>(zv)].rrs) {
            if (r.get_type() == RRType::SOA)
                apex = true;
            if (r.get_type() == RRType::NS)
                ns.push_back(r);
        }
        if (apex) {
            child = z.get_origin();
            boost::optional<Records> glue;
            if (z.RequireGlueRecords(ns))
                glue = z.LookUpGlueRecords(ns);
            children.push_back(std::make_tuple(std::get<0>(zv), glue, ns));
        } else {
            boost::optional<Records> glue = z.LookUpGlueRecords(ns);
            if (!parents.empty() && !(parent == z.get_origin())) {
                if (!LabelUtils::SubDomainCheck(parent, z.get_origin()))
                    continue;
                parents.clear();
            }
            parent = z.get_origin();
            parents.push_back(std::make_tuple(std::get<0>(zv), glue, ns));
        }
    }
    if (child.size()) {
        for (auto &p : parents) {
            if (std::get<1>(p)) {
                auto &glue = std::get<1>(p).get();
                for (auto it = glue.begin(); it != glue.end();) {
                    if (!LabelUtils::SubDomainCheck(child, it->get_name()))
                        it = glue.erase(it);
                    else
                        ++it;
                }
            }
        }
    }
    g.CompareParentChildDelegationRecords(parents, children, user_input, context, job);
}

void CompareDelegations(
    const L &g,
    const vector<Delegation> &parent,
    const vector<Delegation> &child,
    string user_input,
    const Context &context,
    Job &job)
{
    json j;
    auto server = [&](const Delegation &d) { return context.zoneId_nameserver_map.at(std::get<0>(d)); };
    for (auto &p : parent) {
        for (auto &c : child) {
            auto ns = RRUtils::CompareRRs(std::get<2>(p), std::get<2>(c));
            boost::optional<CommonSymDiff> glue;
            if (std::get<1>(c))
                glue = RRUtils::CompareRRs(std::get<1>(p).get(), std::get<1>(c).get());
            g.ConstructOutputNS(j, ns, glue, server(p), server(c), "parent", "child");
        }
    }
    for (auto a = parent.begin(); a != parent.end(); ++a)
        for (auto b = a + 1; b != parent.end(); ++b)
            g.ConstructOutputNS(
                j, RRUtils::CompareRRs(std::get<2>(*a), std::get<2>(*b)),
                RRUtils::CompareRRs(std::get<1>(*a).get(), std::get<1>(*b).get()), server(*a), server(*b), "parent-a",
                "parent-b");
    for (auto a = child.begin(); a != child.end(); ++a)
        for (auto b = a + 1; b != child.end(); ++b)
            g.ConstructOutputNS(
                j, RRUtils::CompareRRs(std::get<2>(*a), std::get<2>(*b)),
                RRUtils::CompareRRs(std::get<1>(*a).get_value_or({}), std::get<1>(*b).get_value_or({})), server(*a),
                server(*b), "child-a", "child-b");
    if (j.size()) {
        j["Property"] = "Structural Delegation Consistency";
        j["Domain Name"] = user_input;
        job.json_queue.enqueue(j);
    }
}

static void list(json &d, string key, const Records &rrs)
{
    if (rrs.empty())
        return;
    d[key] = {};
    for (auto r : rrs)
        d[key].push_back(r.toString());
}
void Output(
    const L &,
    json &j,
    const CommonSymDiff &ns,
    boost::optional<CommonSymDiff> glue,
    string server_a,
    string server_b,
    string a,
    string b)
{
    bool sameNs = std::get<1>(ns).empty() && std::get<2>(ns).empty();
    bool sameGlue = !glue || (std::get<1>(glue.get()).empty() && std::get<2>(glue.get()).empty());
    if (sameNs && sameGlue)
        return;
    if (j.find("Inconsistent Pairs") == j.end())
        j["Inconsistent Pairs"] = {};
    json d;
    d[a + " NS"] = server_a;
    d[b + " NS"] = server_b;
    list(d, "Common NS Records", std::get<0>(ns));
    list(d, "Exclusive " + a + " NS Records", std::get<1>(ns));
    list(d, "Exclusive " + b + " NS Records", std::get<2>(ns));
    if (glue) {
        list(d, "Common Glue Records", std::get<0>(glue.get()));
        list(d, "Exclusive " + a + " Glue Records", std::get<1>(glue.get()));
        list(d, "Exclusive " + b + " Glue Records", std::get<2>(glue.get()));
    }
    j["Inconsistent Pairs"].push_back(d);
}
} // namespace vp
