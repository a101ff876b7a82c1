#!/usr/bin/env python3
"""check.py PROPERTY: decides one property by static analysis of /repo's current source.

Each property has obligations (spec/registry.py): equalities between a function of the program and its
specification, and structural rules over the exported program.  Exit 0: no obligation is violated.
Exit 1: some are; the details are in the file named on the VIOLATION line."""
import json
import multiprocessing
import multiprocessing.connection
import os
import re
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(VERIF, 'engine'), os.path.join(VERIF, 'rules')]
sys.setrecursionlimit(20000)
import registry  # noqa: E402
from extract import extract, ExtractError  # noqa: E402
from ir import Program, norm  # noqa: E402
import core  # noqa: E402
from core import TRUE, FALSE  # noqa: E402
import theory  # noqa: E402
from interp import Summary, PURE_STOP_DEFAULT, EFFECT_STOP_DEFAULT  # noqa: E402
from compare import Result, compare  # noqa: E402

TIER = os.environ.get('VERIF_TIER', 'quick')
LIMIT = 240 if TIER == 'quick' else 600


class Timeout(Exception):
    pass


def on_alarm(*_):
    raise Timeout()


def find(pr, name, arity=None, ptype=None, sig=None):
    c = [f for f in pr.byname.get(name, []) if f.get('body')]
    if arity is not None:
        c = [f for f in c if len(f['params']) == arity]
    if ptype is not None:
        c = [f for f in c if any(ptype in norm(p['t']) for p in f['params'])]
    if sig is not None:
        c = [f for f in c if re.search(sig, ', '.join(p['t'].replace('const ', '').rstrip(' &') for p in f['params']))]
    return c[0] if len(c) == 1 else None


def obligation(o, files, specs):
    """Result: dict(what, status, detail, findings, functions, notes, seconds)."""
    t0 = time.time()
    r = {'what': o.title(), 'status': 'undecided', 'detail': '', 'findings': [], 'functions': [], 'compared': [],
         'unknown': [], 'notes': []}
    signal.signal(signal.SIGALRM, on_alarm)
    signal.alarm(LIMIT)
    try:
        pr = Program(files)
        for n, v in pr.enums.items():
            theory.ENUMS[n] = {x['v'] for x in v['vals']}
        if o.kind == 'rule':
            o.run(pr, r)
        else:
            equality(o, pr, files, specs, r)
    except Timeout:
        r['detail'] = 'time limit of %d s' % LIMIT
    except Exception as e:  # an analysis that fails decides nothing
        r['detail'] = 'analysis stopped: %s' % (repr(e)[:300])
        if os.environ.get('VP_TRACE'):
            traceback.print_exc()
    finally:
        signal.alarm(0)
    r['seconds'] = round(time.time() - t0, 2)
    return r


def equality(o, pr, files, specs, r):
    from interp import Interp
    from compare import compare
    subterms = theory.subterms
    p = specs.get(o.file)
    if not isinstance(p, str):
        r['detail'] = 'the specification does not compile against the current declarations: ' + str(p)[:600]
        return
    fa = o.part(pr) if o.part else find(pr, o.fn, o.arity, o.ptype, o.sig)
    if fa is None:
        r['detail'] = 'function %s not found' % o.fn
        return
    missing = [s for s in o.stop if s not in pr.byname]
    if missing:
        r['detail'] = 'boundary function not found: ' + ', '.join(missing)
        return
    prs = Program(files + [p])
    fb = [g for g in prs.byname.get(o.spec, []) if g.get('body')]
    if len(fb) != 1:
        r['detail'] = 'specification function %s not found' % o.spec
        return
    fb = fb[0]

    extra, pair, defined = set(), [], []

    def summaries(fold):
        core.FOLD[0] = fold
        ia, ib = (Interp(p_, stop=[s for s in o.stop if s not in extra], pure=[s for s in o.pure if s not in extra], keeps=o.keeps,
                         cut=o.cut, inline=tuple(o.inline) + tuple(extra)) for p_ in (pr, prs))
        ia.safety = ib.safety = o.safe or bool(defined)
        sa, sb = ia.summarize(fa), ib.summarize(fb)
        if defined:
            where_defined(sa, sb)
        r['functions'] = sorted({norm(fa["q"])} | {norm(x[1] if isinstance(x, tuple) else x) for x in ia.inlined if x})
        r['notes'] = sorted(set(map(str, sa.notes)))[:10]
        pair[:] = [sa, sb]
        return sa, sb

    def run():
        only = o.only
        if o.case == 'case':
            # letter case matters where the results agree apart from it
            res = compare(*summaries(True), only=only, **dict(o.opts, witness_seconds=0))
            if any(x.startswith('comparison stopped') for x in res.unknown):
                res.findings = []
                return res
            other = {f.comp for f in res.findings} | set(res.open)
            only = lambda c: c not in other and (o.only is None or o.only(c))  # noqa: E731
        if o.safe:
            return safety(*summaries(o.case == 'fold'), r, o.opts)
        return compare(*summaries(o.case == 'fold'), only=only, **o.opts)

    res = run()
    if res.findings and not o.safe:
        # a callee kept abstract on one side only may be what the other side spells out: compare with its body
        extra = {x for x in uninterpreted(pair[0], pr) ^ uninterpreted(pair[1], pr) if x not in (o.fn, o.spec) and x not in EFFECT_STOP_DEFAULT}
        if extra:
            first, r['notes'] = res, r['notes'] + ['compared again with the body of ' + x for x in sorted(extra)]
            try:
                res = run()
            except (Exception, Timeout) as e:  # pylint: disable=broad-except
                res = Result()
                res.unknown = ['with the body of %s: %r' % (', '.join(sorted(extra)), e)]
            if not res.findings and res.unknown and not extra <= PURE_STOP_DEFAULT:
                res = first
    one_sided = extra
    if res.findings and not o.safe:
        # what the program does may follow from what the functions it calls do: compare with their bodies
        extra = {x for x in uninterpreted(pair[0], pr) & uninterpreted(pair[1], pr) if x not in EFFECT_STOP_DEFAULT}
        own = {o.fn in uninterpreted(s, pr) for s in pair}
        if len(own) == 2 and iterates(pair[0] if o.fn not in uninterpreted(pair[0], pr) else pair[1]):
            res.unknown += ['recursion against a loop: %s' % f.where for f in res.findings]
            res.findings = []
        elif extra and o.fn not in extra:
            first, r['notes'] = res, r['notes'] + ['compared again with the bodies of ' + x for x in sorted(extra)]
            try:
                res = run()
            except (Exception, Timeout):  # pylint: disable=broad-except
                res = first
            if res.findings or res.unknown:
                res = first
    if res.findings and not o.safe:
        # nothing is asked of the program where the specification itself has no defined meaning
        first, extra = res, one_sided
        defined.append(True)
        try:
            res = run()
        except (Exception, Timeout):  # pylint: disable=broad-except
            res = first
        if res.findings:
            res = first
        else:
            r['notes'] = r['notes'] + ['compared where the specification has a defined meaning']
    if o.about and res.findings:
        res.findings = [f for f in res.findings if f.cond is not None and any(
            t.op == 'app' and isinstance(t.a[0], str) and t.a[0].split('#')[0] in o.about for i in core.support(f.cond) for t in subterms(core.ATOMS[i]))]
    r['compared'] = res.compared
    r['unknown'] = [u[:400] for u in res.unknown]
    for f in res.findings:
        r['findings'].append({'where': '%s (%s:%s): %s' % (norm(fa['q']), fa['file'], fa['l'], f.where[:400]),
                              'program': f.got[:600], 'specification': f.want[:600],
                              'when': [x[:300] for x in f.lits][:20]})
    r['status'] = 'violated' if r['findings'] else ('partly undecided' if res.unknown else 'holds')


def where_defined(sa, sb):
    """Assume that the specification is not asked for something without a defined meaning."""
    bad = FALSE
    for e in sb.events:
        if e.kind == 'undefined':
            acc, seen = [], set()
            for v in [e.pc] + [x for S, k, d, rev in e.loops for x in (core.leaf(S), d)]:
                theory.subterms(v, acc, seen)
            if not any(t.op in ('pre', 'fpre', 'fix', 'opaque') for t in acc):
                bad = core.bor(bad, happens(e))
    for s in (sa, sb):
        s.events = [e for e in s.events if e.kind != 'undefined']
    sb.assume = core.band(sb.assume, core.bnot(bad))


def happens(e):
    g = TRUE
    for S, k, d, rev in reversed(e.loops):
        g = core.mk_ex(S, k, core.band(d, g))
    return core.band(e.pc, g)


def iterates(s):
    """The summary has a loop whose number of iterations is found by running it."""
    seen, acc = set(), []
    for v in [s.ret, s.pc] + [x[-1] if isinstance(x, tuple) else x for x in s.outs.values()] + [a for e in s.events for a in [e.pc] + list(e.args)]:
        if isinstance(v, (core.V, core.T)):
            theory.subterms(v, acc, seen)
    return any(t.op in ('fold', 'wloop') for t in acc) or any('loop' in x for x in s.notes)


def uninterpreted(s, pr):
    """Functions of the program whose calls occur in the summary as names."""
    out = {e.name for e in s.events if e.kind == 'call'}
    seen, acc = set(), []
    for v in [s.ret, s.pc] + [x[-1] if isinstance(x, tuple) else x for x in s.outs.values()] + [a for e in s.events for a in [e.pc] + list(e.args)]:
        if isinstance(v, (core.V, core.T)):
            theory.subterms(v, acc, seen)
    out |= {t.a[0].split('#')[0] for t in acc if t.op == 'app' and isinstance(t.a[0], str)}
    return {x for x in out if any(f.get('body') for f in pr.byname.get(x, []))}


def safety(sa, sb, r, opts):
    """Every place of the program has a defined meaning, except where the specification has none."""
    def when(events):
        out = FALSE
        for e in events:
            out = core.bor(out, happens(e))
        return out
    sites = {}
    for e in sa.events:
        if e.kind == 'undefined':
            sites.setdefault((e.loc, e.name), []).append(e)
    allowed = when([e for e in sb.events if e.kind == 'undefined'])
    res = Result()
    for site in sorted(sites):
        xa, xb = Summary(), Summary()
        xa.ret, xb.ret = core.bor(when(sites[site]), allowed), allowed
        for x, s in ((xa, sa), (xb, sb)):
            x.pc, x.outs, x.events, x.assume, x.defs, x.notes = TRUE, {}, [], s.assume, s.defs, []
        one = compare(xa, xb, only=lambda c: c == 'ret', **dict(opts, witness_seconds=max(4, 30 / len(sites))))
        for f in one.findings:
            f.where = '%s: %s' % site
            f.got = f.want = ''
            res.findings.append(f)
        res.unknown += ['%s: %s: %s' % (site + (u[:200],)) for u in one.unknown]
    res.compared = ['%s: %s' % x for x in sorted(sa.needs)]
    return res


def each_in_own_process(obs, files, specs, procs=8):
    """Obligations decided in parallel, each by a process of its own: what one computes does not influence another."""
    ctx = multiprocessing.get_context('fork')
    results, todo, running = [None] * len(obs), list(range(len(obs))), {}
    while todo or running:
        while todo and len(running) < procs:
            i = todo.pop(0)
            a, b = ctx.Pipe(False)

            def work(b=b, i=i):
                b.send(obligation(obs[i], files, specs))
                b.close()
            p = ctx.Process(target=work)
            p.start()
            b.close()
            running[a] = (i, p)
        for a in multiprocessing.connection.wait(list(running)):
            i, p = running.pop(a)
            try:
                results[i] = a.recv()
            except EOFError:
                results[i] = {'what': obs[i].title(), 'status': 'undecided', 'detail': 'the analysis was ended (memory)',
                              'findings': [], 'unknown': [], 'compared': [], 'functions': [], 'notes': [], 'seconds': 0}
            a.close()
            p.join()
    return results


def known_findings():
    out = []
    try:
        for line in open(os.path.join(VERIF, 'known-findings.txt')):
            line = line.rstrip('\n')
            if line.startswith('known: '):
                pid, what = line[7:].split(' ', 1)
                out.append((pid.split('=')[1], what))
    except OSError:
        pass
    return out


def main():
    pid = sys.argv[1]
    t0 = time.time()
    obs = registry.OBLIGATIONS.get(pid, [])
    ev = os.path.join(VERIF, 'evidence')
    os.makedirs(ev, exist_ok=True)
    results = []
    err = None
    try:
        files, specs = extract({o.file for o in obs if o.kind == 'eq'})
        results = each_in_own_process(obs, files, specs)
    except Exception as e:  # pylint: disable=broad-except
        err = str(e) if isinstance(e, ExtractError) else repr(e)
    known = [w for p, w in known_findings() if p == pid]
    viol, printed = [], []
    for r in results:
        for f in r['findings']:
            text = '%s: %s' % (r['what'], f['where'])
            k = next((w for w in known if w in text), None)
            if k:
                if k not in printed:
                    printed.append(k)
                    print('KNOWN-FINDING: property=%s %s' % (pid, k))
            else:
                viol.append((r, f))
    held = sum(1 for r in results if r['status'] == 'holds')
    undecided = [r['what'] + ': ' + (r['detail'] or '; '.join(r['unknown'][:3])) for r in results
                 if r['status'] in ('undecided', 'partly undecided')]
    cov = {
        'explanation': 'Static analysis of the current source of /repo. Obligations: equalities of gated value numbers of a '
                       'program function (callees expanded up to the listed boundary) and its specification for every input '
                       'and loop count, and structural rules over the type-checked program. Nothing is executed.',
        'obligations': len(results), 'discharged': held,
        'functions_analysed': sorted({f for r in results for f in r['functions']}),
        'rules': [{'obligation': r['what'], 'status': r['status'], 'compared': len(r['compared']),
                   'sites': r['compared'][:40], 'undecided': r['unknown'][:6] or r['detail'], 'seconds': r['seconds']} for r in results],
        'undecided': undecided,
    }
    if err:
        cov['undecided'] = ['the program could not be read: ' + err[:1500]]
    rec = {'property': pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick',
           'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov,
           'assumptions': registry.ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    with open(os.path.join(ev, pid + '.json'), 'w') as f:
        json.dump(rec, f, indent=1)
    print('%s: %d obligations, %d hold, %d not decided, %d violations, %.1f s' %
          (pid, len(results), held, len(undecided), len(viol), time.time() - t0))
    for u in undecided:
        print('  not decided: ' + u[:300].replace('\n', ' '))
    if err:
        print('  not decided: the program could not be read: ' + err[:600])
    if viol:
        path = os.path.join(ev, pid + '.violation.txt')
        with open(path, 'w') as f:
            for r, x in viol:
                f.write('%s\n  %s\n' % (r['what'], x['where']))
                for k in ('program', 'specification'):
                    if x.get(k):
                        f.write('  %s: %s\n' % (k, x[k]))
                for w in x.get('when', []):
                    f.write('    when %s\n' % w)
                f.write('\n')
        for r, x in viol[:5]:
            print('  %s\n    %s' % (r['what'][:200], x['where'][:300]))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    return 0


if __name__ == '__main__':
    sys.exit(main())
