// Reference meaning of the units of work of a job, written from the property statements (C26, C44, C50, C52).
#include "ec-task.h"
#include "job.h"
#include "structural-task.h"
#include "vp.h"

namespace vp
{
using Arguments = vector<boost::any>;

// C26: the graph of the class is built in the run's context, searched for loops, then checked with the functions of the job
void ClassTask(ECTask &task, const Context &context, Arguments &arguments)
{
    Job *job = boost::any_cast<Job *>(arguments[0]);
    interpretation::Graph graph(task.ec_, context);
    graph.CheckForLoops(job->json_queue);
    job->attributes_queue.enqueue({static_cast<int>(num_vertices(graph)), static_cast<int>(num_edges(graph))});
    job->stats.ec_count++;
    graph.CheckPropertiesOnEC(job->path_functions, job->node_functions, job->json_queue);
}

// C44: the node and the domain the task was made for
void StructureTask(StructuralTask &task, const Context &context, Arguments &arguments)
{
    Job *job = boost::any_cast<Job *>(arguments[0]);
    label::Graph *labels = boost::any_cast<label::Graph *>(arguments[1]);
    labels->CheckStructuralDelegationConsistency(task.domain_name_, task.node_, context, *job);
}
void NewStructureTask(StructuralTask &task, label::Graph::VertexDescriptor node, string domain)
{
    task.node_ = node;
    task.domain_name_ = domain;
}
} // namespace vp
