"""Which obligations decide which property."""
import re

OBLIGATIONS = {}
ASSUMPTIONS = [
    'library calls (standard library, Boost, nlohmann::json, concurrent queue) behave as documented',
    'graph edges end at existing vertices; containers are not modified behind the program\'s back',
    'logging has no effect on the results',
]


class Eq:
    kind = 'eq'

    def __init__(self, fn, spec, file, stop=(), arity=None, ptype=None, pure=(), keeps=None, sig=None, cut=(), inline=(),
                 case=None, about=(), only=None, safe=False, part=None, **opts):
        self.safe, self.part = safe, part
        self.cut, self.inline, self.case, self.about, self.only = tuple(cut), tuple(inline), case, tuple(about), only
        self.sig = sig
        self.pure, self.keeps = tuple(pure), keeps or {}
        self.fn, self.spec, self.file, self.stop, self.arity, self.ptype, self.opts = fn, spec, file, tuple(stop), arity, ptype, opts

    def title(self):
        return '%s %s %s' % (self.fn, 'is defined wherever it is in' if self.safe else 'equals specification', self.spec)


class Rule:
    kind = 'rule'

    def __init__(self, name, f):
        self.name, self.f, self.file = name, f, None

    def title(self):
        return self.name

    def run(self, pr, r):
        """f yields (ok, construct, where, why)."""
        n = 0
        for ok, site, why in self.f(pr):
            if ok is True:
                n += 1
                r['compared'].append(site)
            elif ok is None:
                r['unknown'].append('%s: %s' % (site, why))
            else:
                r['findings'].append({'where': '%s: %s' % (site, why)})
        r['status'] = 'violated' if r['findings'] else 'partly undecided' if r['unknown'] or not n else 'holds'
        if not n and not r['unknown']:
            r['detail'] = 'nothing to examine'


def eq(pid, *a, **k):
    OBLIGATIONS.setdefault(pid, []).append(Eq(*a, **k))


def rule(pid, name, f):
    OBLIGATIONS.setdefault(pid, []).append(Rule(name, f))


P = 'interpretation::Graph::Properties::'
for pid, fn, sp in [
        ('C30', 'CheckResponseReturned', 'ResponseReturned'), ('C31', 'CheckResponseValue', 'ResponseValue'),
        ('C32', 'CheckSameResponseReturned', 'ResponseConsistency'),
        ('C33', 'ZeroTTL', 'ZeroTTL'), ('C34', 'AllAliases', 'AllAliases'),
        ('C35', 'CheckDelegationConsistency', 'DelegationConsistency'),
        ('C36', 'CheckLameDelegation', 'LameDelegation'), ('C42', 'DNAMESubstitutionExceedesLength', 'DNAMELength'),
        ('C40', 'NameServerContact', 'NameServerContact'), ('C37', 'NumberOfHops', 'Hops'),
        ('C38', 'NumberOfRewrites', 'Rewrites'), ('C39', 'QueryRewrite', 'QueryRewrite'),
        ('C41', 'RewriteBlackholing', 'RewriteBlackholing'), ('C43', 'InfiniteDName', 'InfiniteDName')]:
    eq(pid, P + fn, 'vp::' + sp, 'properties')


Z = 'zone::Graph::'
ZS = [Z + x for x in ('AddGlueRecords', 'GetAncestor', 'GetClosestEncloser', 'WildcardMatch', 'AddNodes',
                      'ConstructChildLabelsToVertexDescriptorMap', 'RequireGlueRecords', 'CheckGlueRecordsPresence')]


def zone(pid, fn, spec, **k):
    eq(pid, Z + fn, 'vp::' + spec, 'zone', stop=[s for s in ZS if s != Z + fn or k.get('rec')], **{a: b for a, b in k.items() if a != 'rec'})


zone('C07', 'AddResourceRecord', 'AddRecord')
zone('C08', 'CheckZoneMembership', 'Membership')
zone('C09', 'GetAncestor', 'Ancestor', arity=4, rec=True)
zone('C09', 'GetAncestor', 'Ancestor3', arity=3, rec=True)
zone('C09', 'ConstructChildLabelsToVertexDescriptorMap', 'ChildMap')
zone('C09', 'AddNodes', 'Nodes')
zone('C10', 'GetClosestEncloser', 'ClosestEncloser', rec=True)
zone('C10', 'GetNodeRRTypes', 'NodeTypes')
zone('C11', 'QueryLookUpAtZone', 'LookUp')
zone('C12', 'QueryLookUpAtZone', 'LookUp')
zone('C13', 'WildcardMatch', 'Wildcard')
zone('C14', 'AddGlueRecords', 'AddGlue')
zone('C14', 'LookUpGlueRecords', 'LookUpGlue')
zone('C14', 'RequireGlueRecords', 'RequireGlue')
zone('C55', 'CheckGlueRecordsPresence', 'GluePresence', arity=2, rec=True)

L = 'label::Graph::'
LS = [L + x for x in ('GetAncestor', 'AddNodes', 'ConstructChildLabelsToVertexDescriptorMap', 'SearchNode', 'NodeEC',
                      'WildcardChildEC', 'SubDomainECGeneration', 'CompareParentChildDelegationRecords',
                      'ConstructOutputNS', 'ClosestEnclosers')] + [Z + 'RequireGlueRecords', Z + 'LookUpGlueRecords']


# the marks of a search are gone when it returns: shown at SearchNode and SubDomainECGeneration themselves
MARKS = {L + x: ['this'] for x in ('SearchNode', 'ClosestEnclosers', 'SubDomainECGeneration')}


def label(pid, fn, spec, **k):
    k.setdefault('keeps', MARKS)
    eq(pid, L + fn, 'vp::' + spec, 'label', stop=[s for s in LS if s != L + fn or k.get('rec')], **{a: b for a, b in k.items() if a != 'rec'})


label('C09', 'GetAncestor', 'LAncestor', rec=True)
label('C09', 'ConstructChildLabelsToVertexDescriptorMap', 'LChildMap')
label('C09', 'AddNodes', 'LNodes')
label('C15', 'AddResourceRecord', 'LRecord')
label('C15', 'AddNodes', 'LNodes')
label('C15', 'GetAncestor', 'LAncestor', rec=True)
label('C16', 'SearchNode', 'Search', rec=True)
label('C16', 'ClosestEnclosers', 'Enclosers', ptype='std::vector')
label('C17', 'NodeEC', 'ClassOf')
label('C17', 'WildcardChildEC', 'ClassOfWildcard')
label('C17', 'SubDomainECGeneration', 'SubDomains', rec=True)
label('C17', 'GenerateECs', 'Generate')
label('C18', 'SearchNode', 'Search', rec=True)
label('C18', 'SubDomainECGeneration', 'SubDomains', rec=True)
label('C18', 'GenerateECs', 'Generate')
label('C44', 'CheckStructuralDelegationConsistency', 'Structural', pure=[Z + 'LookUpGlueRecords', Z + 'RequireGlueRecords'])
label('C44', 'CompareParentChildDelegationRecords', 'CompareDelegations')
label('C44', 'ConstructOutputNS', 'Output')


I = 'interpretation::Graph::'
IS = [I + x for x in ('InsertNode', 'GetRelevantZone', 'QueryResolver', 'NsSubRoutine', 'SideQuery', 'StartFromTopNameservers',
                      'CheckCnameDnameAtSameNameserver', 'ProcessCname', 'ProcessDname', 'MatchNsGlueRecords', 'PrettyPrintLoop',
                      'EnumeratePathsAndReturnEndNodes')] + [Z + 'QueryLookUpAtZone']
IPURE = [I + 'GetRelevantZone', I + 'ProcessCname', I + 'ProcessDname', I + 'MatchNsGlueRecords']

# the vertex given by reference is left as it was (compared where these functions are examined)
VERTEX = {I + 'QueryResolver': [1], I + 'CheckCnameDnameAtSameNameserver': [0]}


def interp(pid, fn, spec, **k):
    eq(pid, I + fn, 'vp::' + spec, 'interp', stop=[s for s in IS if s != I + fn or k.get('rec')] + k.pop('also', []),
       pure=[s for s in IPURE if s != I + fn], keeps=VERTEX, **{a: b for a, b in k.items() if a != 'rec'})


interp('C19', 'GetRelevantZone', 'RelevantZone')
interp('C20', 'InsertNode', 'Insert')
interp('C20', 'SideQuery', 'Side')
eq('C20', 'EC::operator==', 'vp::SameQuery', 'interp')
interp('C21', 'Graph', 'Start', arity=2)
interp('C21', 'StartFromTopNameservers', 'TopServers')
interp('C21', 'NsSubRoutine', 'ReferredServer')
interp('C21', 'CheckCnameDnameAtSameNameserver', 'Rewritten')
interp('C22', 'QueryResolver', 'Resolve')
interp('C22', 'MatchNsGlueRecords', 'Servers')
interp('C23', 'ProcessCname', 'Cname')
interp('C23', 'ProcessDname', 'Dname')
interp('C23', 'CheckCnameDnameAtSameNameserver', 'Rewritten')
interp('C23', 'QueryResolver', 'Resolve')
interp('C26', 'EnumeratePathsAndReturnEndNodes', 'Paths', rec=True)
interp('C26', 'CheckForLoops', 'Loops', arity=3, also=[I + 'CheckForLoops'])
interp('C26', 'CheckForLoops', 'LoopsFromRoot', arity=1)
interp('C26', 'PrettyPrintLoop', 'LoopReport')
interp('C26', 'CheckPropertiesOnEC', 'Check')

# C24: a step that goes on must have claimed a new pair first; only what the program does beyond that is a difference
from compare import more, less  # noqa: E402
from core import FT  # noqa: E402
STEPS = {I + 'QueryResolver': (2,), I + 'StartFromTopNameservers': (1,), I + 'CheckCnameDnameAtSameNameserver': (1,), I + 'NsSubRoutine': (1,),
         I + 'SideQuery': (), I + 'EnumeratePathsAndReturnEndNodes': (1,), I + 'CheckForLoops': (1,)}


def comps(*names):
    """Parts of a result: 'ret', 'normal', a parameter number, or the name of a called function."""
    def f(c):
        return c in names if isinstance(c, str) else c[1] in names if c[0] == 'out' else c[1][1] in names
    return f


def claimed(comp, d):
    return more(comp, d) and 'loop step' not in d.path if comp[0] != 'out' else re.search('nameserver_to_vertices_map_|query|ns', d.path) is not None


for fn, sp, k in [('InsertNode', 'Insert', {}), ('SideQuery', 'Side', {}), ('StartFromTopNameservers', 'TopServers', {}), ('NsSubRoutine', 'ReferredServer', {}),
                  ('CheckCnameDnameAtSameNameserver', 'Rewritten', {}), ('QueryResolver', 'Resolve', {}),
                  ('EnumeratePathsAndReturnEndNodes', 'Paths', dict(rec=True)), ('CheckForLoops', 'Loops', dict(arity=3, also=[I + 'CheckForLoops']))]:
    interp('C24', fn, sp, only=comps('ret', *STEPS, *[0] * (fn in ('InsertNode', 'SideQuery'))), toward=claimed, event_args=STEPS, **k)
eq('C24', 'EC::operator==', 'vp::SameQuery', 'interp', toward=less)
eq('C24', 'LabelUtils::LengthCheck', 'vp::Length', 'utils', stop=['LabelUtils::LabelsToString'], only=comps('ret'),
   toward=lambda comp, d: d.y is FT)


TS = [I + x for x in ('Graph', 'CheckForLoops', 'CheckPropertiesOnEC')] + [L + 'CheckStructuralDelegationConsistency']
eq('C26', 'ECTask::Process', 'vp::ClassTask', 'tasks', stop=TS)
eq('C44', 'StructuralTask::Process', 'vp::StructureTask', 'tasks', stop=TS)
eq('C44', 'StructuralTask::StructuralTask', 'vp::NewStructureTask', 'tasks', stop=TS)
for pid in ('C30', 'C34'):
    eq(pid, 'EC::ToString', 'vp::QueryText', 'interp')

LU, RR = 'LabelUtils::', 'ResourceRecord::'
US = [LU + x for x in ('LabelsToString', 'StringToLabels')] + ['TypeUtils::TypesToString', 'TypeUtils::StringToType', 'LintUtils::WriteIssueToFile']


def util(pid, fn, spec, **k):
    eq(pid, fn, 'vp::' + spec, 'utils', stop=[s for s in US if s != fn], **k)


util('C04', LU + 'LengthCheck', 'Length')
util('C46', LU + 'SubDomainCheck', 'Under', sig='^std::vector<NodeLabel')
util('C46', LU + 'SubDomainCheck', 'UnderAny', sig='^std::vector<std::vector')
util('C46', LU + 'LabelsToString', 'NameText', sig='^std::vector<NodeLabel')
util('C46', LU + 'LabelsToString', 'NamesText', sig='^std::vector<std::vector')
util('C46', LU + 'StringToLabels', 'Split')
util('C05', 'TypeUtils::StringToType', 'TypeCode')
util('C05', 'TypeUtils::TypeToString', 'TypeName')
util('C05', 'TypeUtils::TypesToString', 'TypeNames')
util('C45', RR + 'operator==', 'SameRecord')
util('C45', 'RRUtils::CompareRRs', 'Compare')
util('C45', 'NodeLabel::operator==', 'SameLabel')
util('C45', RR + 'toString', 'RecordText')
for fn, sp in [('get_name', 'Name'), ('get_type', 'Type'), ('get_class', 'Class'), ('get_ttl', 'Ttl'), ('get_rdata', 'Data'),
               ('set_name', 'SetName'), ('set_type', 'SetType'), ('set_class', 'SetClass'), ('set_ttl', 'SetTtl')]:
    util('C45', RR + fn, sp)
util('C45', 'NodeLabel::get', 'LabelText')
util('C45', 'NodeLabel::set', 'SetLabel')
util('C55', 'LintUtils::WriteRRIssueToFile', 'Issue')
util('C55', 'LintUtils::WriteIssueToFile', 'Append')
util('C55', 'LintUtils::WriteIssueToFile', 'Append', safe=True)


D = 'Driver::'
DS = [I + 'Properties::' + x for x in (
    'CheckResponseReturned', 'CheckResponseValue', 'CheckSameResponseReturned', 'ZeroTTL', 'AllAliases', 'CheckDelegationConsistency',
    'CheckLameDelegation', 'DNAMESubstitutionExceedesLength', 'NameServerContact', 'NumberOfHops', 'NumberOfRewrites', 'QueryRewrite',
    'RewriteBlackholing', 'InfiniteDName')]


def driver(pid, fn, spec, **k):
    eq(pid, fn, 'vp::' + spec, 'driver', stop=DS + k.pop('also', []), **k)


driver('C58', D + 'SetJob', 'DefaultJob', sig='^std::string|^std::basic_string|^string')
driver('C50', D + 'SetJob', 'UserJob', sig='json')
driver('C57', D + 'SetContext', 'Context_', also=['MetadataSanityCheck', D + 'ParseZoneFileAndExtendGraphs', Z + 'CheckGlueRecordsPresence'])
driver('C56', 'MetadataSanityCheck', 'Sane')
for pid in ('C54', 'C56'):
    driver(pid, D + 'WriteViolationsToFile', 'Output_')
driver('C54', D + 'WriteViolationsToFile', 'Output_', safe=True)
driver('C51', D + 'SetJob', 'UserJob', sig='json')
driver('C51', D + 'SetJob', 'DefaultJob', sig='^std::string|^std::basic_string|^string')


import parts  # noqa: E402
for pid in ('C34', 'C54'):
    eq(pid, 'Collector of reports', 'vp::Collected', 'driver', part=parts.Reports)
for pid in ('C26', 'C44'):
    eq(pid, 'Worker', 'vp::Worked', 'driver', part=parts.Tasks)

DM = [D + x for x in ('SetContext', 'SetJob', 'GenerateECsAndCheckProperties', 'GetECCountForCurrentJob', 'WriteStatsForAJob',
                      'WriteViolationsToFile')]
for pid in ('C56', 'C58'):
    eq(pid, 'Main', 'vp::Run', 'main', stop=DM, keeps={D + 'WriteStatsForAJob': ['this']}, ignore_events=[D + 'WriteStatsForAJob', D + 'GetECCountForCurrentJob'])
for pid in ('C55', 'C56'):
    eq(pid, 'main', 'vp::Program', 'main', stop=['Main'])


PS = ['Parser::' + x for x in ('GetTypeIndex', 'ToInteger', 'isInteger')] + [
    Z + 'CheckZoneMembership', Z + 'AddResourceRecord', L + 'AddResourceRecord']


def parser(pid, fn, spec, **k):
    eq(pid, fn, 'vp::' + spec, 'parser', stop=PS, pure=PS[:3], **k)


READ = dict(fn='Parser::operator()', spec='Read', cut=['ResourceRecord::ResourceRecord/5'], inline=['TypeUtils::StringToType'])
NEW, ISSUE = 'new ResourceRecord', 'LintUtils::WriteRRIssueToFile'
parser('C01', case='case', **READ)
parser('C02', case='fold', only=comps('ret', 'normal', 2, 3, 6, 7, 8, 9, NEW, ISSUE, PS[3], PS[4], PS[5]), **READ)
parser('C03', case='fold', only=comps(NEW, 4, 5, 3), **READ)
parser('C04', case='fold', given=NEW, about=['LabelUtils::LengthCheck'], only=comps(7, 8), **READ)
parser('C07', case='fold', given=NEW, about=[PS[4]], only=comps(7, 8), **READ)
parser('C08', case='fold', given=NEW, about=[PS[3]], only=comps(7, 8), **READ)
parser('C55', case='fold', given=NEW, only=comps(ISSUE), **READ)
for pid in ('C05', 'C02'):
    parser(pid, 'Parser::GetTypeIndex', 'TypeField')
for pid in ('C03', 'C06'):
    parser(pid, 'Parser::ToInteger', 'Number')
    parser(pid, 'Parser::isInteger', 'IsNumber')
parser('C06', 'Parser::GetTypeIndex', 'TypeField', safe=True)
parser('C06', 'Parser::ToInteger', 'Number', safe=True)
parser('C06', 'Parser::isInteger', 'IsNumber', safe=True)
parser('C06', safe=True, **READ)
for pid in ('C02', 'C57'):
    eq(pid, 'Driver::ParseZoneFileAndExtendGraphs', 'vp::LoadFile', 'parser', stop=['ReadFromFile'], pure=['ReadFromFile'])
eq('C06', 'Driver::ParseZoneFileAndExtendGraphs', 'vp::LoadFile', 'parser', stop=['ReadFromFile'], pure=['ReadFromFile'], safe=True)

for pid in ('C02', 'C56'):
    eq(pid, 'ReadFromFile', 'vp::Text', 'parser')

import exits  # noqa: E402
import lexer  # noqa: E402
rule('C02', 'Zone file text is split into the fields of the reference grammar', lexer.check)
rule('C56', 'No failure is turned into success', exits.check)

import pipeline  # noqa: E402
rule('C52', 'Producer, workers and collectors of a job end in order', pipeline.check)
import effects  # noqa: E402
rule('C53', 'Threads of a job share no unsynchronised mutable state', effects.check)
import stale  # noqa: E402
rule('C25', 'Nothing refers into the nodes of a graph after nodes may have been added', stale.check)
rule('C25', 'Resolution does not modify the zone data it reads', stale.unmodified)
