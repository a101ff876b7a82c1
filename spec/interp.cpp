// Reference meaning of query resolution, written from the property statements (C19-C23, C26).
#include "interpretation-properties.h"
#include "vp.h"

namespace vp
{
using G = interpretation::Graph;
using VD = G::VertexDescriptor;
using Path = G::Path;
using Queue = moodycamel::ConcurrentQueue<json>;
using Labels = vector<NodeLabel>;
using Answers = vector<zone::LookUpAnswer>;
using Records = vector<ResourceRecord>;

// C19: the zone of the server whose origin is the longest one that is an ancestor of the name
boost::optional<int> RelevantZone(const G &, string ns, const EC query, const Context &context)
{
    auto zones = context.nameserver_zoneIds_map.find(ns);
    if (zones == context.nameserver_zoneIds_map.end())
        return {};
    bool found = false;
    int best = 0, length = -1;
    for (auto id : zones->second) {
        const zone::Graph &zone = context.zoneId_to_zone.find(id)->second;
        Labels origin = zone.get_origin();
        bool above = true;
        for (int i = 0; i < origin.size(); i++)
            if (i >= query.name.size() || origin[i].n != query.name[i].n)
                above = false;
        if (above)
            found = true;
        if (above && (int)origin.size() > length) {
            length = origin.size();
            best = id;
        }
    }
    if (found)
        return best;
    return {};
}

// C20: one vertex per server and query; asking again leads to the same vertex
boost::optional<VD> Insert(G &g, string ns, EC query, VD from, boost::optional<VD> side)
{
    auto &vertices = g.nameserver_to_vertices_map_;
    bool fresh = vertices.find(ns) == vertices.end();
    if (!fresh) {
        for (auto n : vertices.find(ns)->second)
            if (query == g[n].query) {
                auto [e, b] = boost::add_edge(from, n, g);
                if (side)
                    g[e].intermediate_query = static_cast<int>(side.get());
                return {};
            }
    }
    if (fresh)
        vertices.insert({ns, std::vector<VD>()});
    VD v = boost::add_vertex(g);
    g[v].ns = ns;
    g[v].query = query;
    auto [e, b] = boost::add_edge(from, v, g);
    if (side)
        g[e].intermediate_query = static_cast<int>(side.get());
    vertices.find(ns)->second.push_back(v);
    return v;
}

// C20: one start vertex per side query, resolved from the top name servers when it is new
VD Side(G &g, const EC query, const Context &context)
{
    auto &vertices = g.nameserver_to_vertices_map_;
    auto it = vertices.find("");
    if (it != vertices.end())
        for (auto n : it->second)
            if (query == g[n].query)
                return n;
    if (it == vertices.end())
        vertices.insert({"", std::vector<VD>()});
    VD v = boost::add_vertex(g);
    g[v].ns = "";
    g[v].query = query;
    vertices.find("")->second.push_back(v);
    g.StartFromTopNameservers(v, query, context);
    return v;
}

static Answers only(ReturnTag tag, std::bitset<RRType::N> types)
{
    Answers a;
    a.push_back(std::make_tuple(tag, types, Records{}));
    return a;
}

// C21: every server asked for the first time gets an answer
void TopServers(G &g, VD from, const EC query, const Context &context)
{
    for (auto ns : context.top_nameservers) {
        auto zone = g.GetRelevantZone(ns, query, context);
        auto v = g.InsertNode(ns, query, from, {});
        if (!v)
            continue;
        if (zone)
            g.QueryResolver(context.zoneId_to_zone.find(zone.get())->second, v.get(), context);
        else
            g[v.get()].answer = only(ReturnTag::REFUSED, g[v.get()].query.rrTypes);
    }
}
// C21: resolution of a class starts at a vertex that stands for all top name servers
void Start(G &g, const EC query, const Context &context)
{
    g.nameserver_to_vertices_map_.clear();
    g.root_ = boost::add_vertex(g);
    g[g.root_].ns = "";
    g[g.root_].query = query;
    std::vector<VD> start;
    start.push_back(g.root_);
    g.nameserver_to_vertices_map_.insert({"", start});
    g.StartFromTopNameservers(g.root_, query, context);
}
void ReferredServer(G &g, const VD &from, const string &ns, boost::optional<VD> side, const Context &context)
{
    auto v = g.InsertNode(ns, g[from].query, from, side);
    if (!v)
        return;
    if (context.nameserver_zoneIds_map.find(ns) == context.nameserver_zoneIds_map.end()) {
        g[v.get()].answer = only(ReturnTag::NSNOTFOUND, g[v.get()].query.rrTypes);
        return;
    }
    auto zone = g.GetRelevantZone(ns, g[from].query, context);
    if (zone)
        g.QueryResolver(context.zoneId_to_zone.find(zone.get())->second, v.get(), context);
    else
        g[v.get()].answer = only(ReturnTag::REFUSED, g[v.get()].query.rrTypes);
}
void Rewritten(G &g, VD &at, const EC query, const Context &context)
{
    if (!std::get<0>(LabelUtils::LengthCheck(query.name, 0))) {
        auto v = g.InsertNode(g[at].ns, query, at, {});
        if (v)
            g[v.get()].answer = only(ReturnTag::YX, query.rrTypes);
        return;
    }
    auto zone = g.GetRelevantZone(g[at].ns, query, context);
    if (!zone) {
        g.StartFromTopNameservers(at, query, context);
        return;
    }
    auto v = g.InsertNode(g[at].ns, query, at, {});
    if (v)
        g.QueryResolver(context.zoneId_to_zone.find(zone.get())->second, v.get(), context);
}

// C22, C23: what follows from each answer
void Resolve(G &g, const zone::Graph &z, VD &at, const Context &context)
{
    bool complete = false;
    g[at].answer = z.QueryLookUpAtZone(g[at].query, complete);
    if (!g[at].answer)
        return;
    Answers answers = g[at].answer.get();
    for (auto &a : answers) {
        if (std::get<0>(a) == ReturnTag::REWRITE) {
            const ResourceRecord &r = std::get<2>(a)[0];
            if (r.get_type() == RRType::CNAME)
                g.CheckCnameDnameAtSameNameserver(at, g.ProcessCname(r, g[at].query), context);
            else
                g.CheckCnameDnameAtSameNameserver(at, g.ProcessDname(r, g[at].query), context);
        }
        if (std::get<0>(a) == ReturnTag::REF) {
            for (auto &p : g.MatchNsGlueRecords(std::get<2>(a))) {
                string server = std::get<0>(p).get_rdata();
                bool top = false;
                for (auto &t : context.top_nameservers)
                    if (t == server)
                        top = true;
                if (!std::get<1>(p).empty() || top) {
                    g.NsSubRoutine(at, server, {}, context);
                } else {
                    EC addresses;
                    addresses.name = LabelUtils::StringToLabels(server);
                    addresses.rrTypes.set(RRType::A);
                    addresses.rrTypes.set(RRType::AAAA);
                    VD side = g.SideQuery(addresses, context);
                    g.NsSubRoutine(at, server, side, context);
                }
            }
        }
    }
}
// C22: each name server record of a referral with the addresses given for it
vector<tuple<ResourceRecord, Records>> Servers(const G &, Records records)
{
    vector<tuple<ResourceRecord, Records>> out;
    for (int i = 0; i < records.size(); i++)
        if (records[i].get_type() == RRType::NS) {
            Records glue;
            int j = i + 1;
            while (j < records.size() && (records[j].get_type() == RRType::A || records[j].get_type() == RRType::AAAA)) {
                glue.push_back(records[j]);
                j++;
            }
            out.push_back(std::make_tuple(records[i], glue));
            if (j < records.size())
                i = j - 1;
        }
    return out;
}
EC Cname(const G &, const ResourceRecord &r, const EC query)
{
    EC q;
    q.name = LabelUtils::StringToLabels(r.get_rdata());
    q.rrTypes = query.rrTypes;
    q.rrTypes[RRType::CNAME] = 0;
    return q;
}
EC Dname(const G &, const ResourceRecord &r, const EC query)
{
    Labels owner = r.get_name();
    for (size_t i = 0; i < owner.size(); i++)
        if (!(owner[i] == query.name[i]))
            exit(EXIT_FAILURE);
    EC q;
    q.rrTypes = query.rrTypes;
    q.excluded = query.excluded;
    q.name = LabelUtils::StringToLabels(r.get_rdata());
    for (size_t i = owner.size(); i < query.name.size(); i++)
        q.name.push_back(query.name[i]);
    return q;
}

// C20: two queries are the same when name, types and the kind of name (concrete or any other) agree
bool SameQuery(const EC &p, const EC &q)
{
    return p.name == q.name && p.rrTypes == q.rrTypes && p.excluded.is_initialized() == q.excluded.is_initialized();
}
string QueryText(const EC &q)
{
    string r = LabelUtils::LabelsToString(q.name);
    if (q.excluded)
        r = "~{ }." + r;
    return r;
}

// C26: every end point once, every path reported to every path property, loops reported
void Paths(const G &g, VD v, vector<VD> &ends, Path p, const vector<G::PathFunction> &functions, Queue &queue)
{
    const auto &answer = g[v].answer;
    if (g[v].ns != "" && answer && !answer.get().empty() && std::get<0>(answer.get()[0]) == ReturnTag::REWRITE &&
        std::get<2>(answer.get()[0])[0].get_type() == RRType::CNAME && g[v].query.rrTypes[RRType::CNAME]) {
        bool known = false;
        for (auto e : ends)
            if (e == v)
                known = true;
        if (!known)
            ends.push_back(v);
        Path with = p;
        with.push_back(v);
        for (auto &f : functions)
            f(g, with, queue);
    }
    for (auto u : p)
        if (u == v)
            return;
    p.push_back(v);
    for (G::EdgeDescriptor e : boost::make_iterator_range(out_edges(v, g)))
        g.EnumeratePathsAndReturnEndNodes(e.m_target, ends, p, functions, queue);
    if (out_degree(v, g) == 0) {
        bool known = false;
        for (auto e : ends)
            if (e == v)
                known = true;
        if (!known)
            ends.push_back(v);
        for (auto &f : functions)
            f(g, p, queue);
    }
}
bool Loops(const G &g, VD v, Path p, Queue &queue)
{
    for (auto u : p)
        if (u == v) {
            g.PrettyPrintLoop(v, p, queue);
            return true;
        }
    p.push_back(v);
    for (G::EdgeDescriptor e : boost::make_iterator_range(out_edges(v, g))) {
        if (g[e].intermediate_query && g.CheckForLoops(g[e].intermediate_query.get(), p, queue))
            return true;
        if (g.CheckForLoops(e.m_target, p, queue))
            return true;
    }
    return false;
}
void LoopsFromRoot(const G &g, Queue &queue)
{
    g.CheckForLoops(g.root_, Path{}, queue);
}
void LoopReport(const G &g, const VD &start, Path p, Queue &queue)
{
    json j;
    j["Property"] = "Cyclic Zone Dependency";
    j["Loop"] = {};
    bool in = false;
    for (auto v : p) {
        if (v == start)
            in = true;
        if (!in)
            continue;
        json n;
        n["NS"] = g[v].ns;
        n["Query"] = g[v].query.ToString();
        if (g[v].answer)
            n["AnswerTag"] = std::get<0>(g[v].answer.get()[0]);
        j["Loop"].push_back(n);
    }
    queue.enqueue(j);
}
void Check(
    const G &g,
    const vector<G::PathFunction> &paths,
    const vector<G::NodeFunction> &nodes,
    Queue &queue)
{
    vector<VD> ends;
    g.EnumeratePathsAndReturnEndNodes(g.root_, ends, Path{}, paths, queue);
    for (auto &f : nodes)
        f(g, ends, queue);
}
} // namespace vp
