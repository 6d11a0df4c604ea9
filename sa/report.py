"""Obligation bookkeeping, verdict lines and evidence files."""
import json, os, sys, time, traceback
from .vals import Unsupported, Diverge
from .prog import MissingAnchor
from . import build
VERIF = build.VERIF

class Report:
    def __init__(s, pid, rule, tier='quick'):
        s.pid = pid; s.rule = rule; s.tier = tier; s.t0 = time.time()
        s.obs = []; s.assume = []; s.extra = {}; s.trusted = []
    def ok(s, key, where='', detail=''): s.obs.append(('ok', key, where, detail))
    def bad(s, key, where='', detail=''): s.obs.append(('bad', key, where, detail))
    def und(s, key, where='', detail=''): s.obs.append(('undecided', key, where, detail))
    def check(s, cond, key, where='', detail=''):
        (s.ok if cond else s.bad)(key, where, detail if not cond else '')
        return cond
    def attempt(s, key, f, where=''):
        """run f() -> None/True (ok), False or str (violation detail)"""
        try:
            r = f()
        except MissingAnchor as e:
            s.bad(key, where, 'anchor missing: %s' % e); return
        except Unsupported as e:
            s.und(key, where, 'not decided: %s' % e); return
        except Diverge:
            s.bad(key, where, 'every path panics'); return
        except RecursionError:
            s.und(key, where, 'not decided: recursion limit'); return
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)[-1]
            s.und(key, where, 'not decided: %s: %s (%s:%d)' % (type(e).__name__, e, os.path.basename(tb.filename), tb.lineno)); return
        if r is None or r is True: s.ok(key, where)
        elif r is False: s.bad(key, where, 'does not hold')
        else: s.bad(key, where, r)
    def parallel(s, jobs, procs=8):
        """jobs: list of (key, f, where); every f is decided in a forked worker"""
        import multiprocessing as mp
        ctx = mp.get_context('fork')
        global _JOBS
        _JOBS = jobs
        with ctx.Pool(min(procs, max(1, len(jobs)))) as pool:
            for (key, f, w), r in zip(jobs, pool.imap(_work, range(len(jobs)), 1)):
                st, det = r
                s.obs.append((st, key, w, det))
    def floor(s, name, n, least):
        if n < least: s.bad('floor:' + name, '', 'only %d instances found, at least %d were confirmed by hand' % (n, least))
        else: s.ok('floor:' + name)
    def finish(s):
        known = {}
        p = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(p):
            for e in json.load(open(p))['findings']:
                if e['property'] == s.pid: known[e['key']] = e['what']
        bad = [o for o in s.obs if o[0] == 'bad']
        und = [o for o in s.obs if o[0] == 'undecided']
        new = [o for o in bad if o[1] not in known]
        od = os.path.join(VERIF, 'evidence'); os.makedirs(od, exist_ok=True)
        ev = {'property': s.pid, 'tier': s.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': s.extra.pop('level', 'proof'),
              'coverage': dict({'obligations': len(s.obs), 'discharged': len([o for o in s.obs if o[0] == 'ok']), 'undecided': len(und),
                           'checker_cmd': 'python3 -m sa.run ' + s.pid, 'rule': s.rule,
                           'trusted_base': ['rustc nightly front end and MIR construction (the driver reads its MIR)', 'the abstract interpreter and its std/num-bigint models in /verif/sa'] + s.trusted,
                           'samples': [{'obligation': o[1], 'where': o[2], 'verdict': o[0], 'detail': o[3]} for o in (bad + und)[:60] + [o for o in s.obs if o[0] == 'ok'][:250]],
                           'undecided_list': ['%s: %s' % (o[1], o[3]) for o in und]}, **s.extra),
              'assumptions': s.assume, 'wall_s': round(time.time() - s.t0, 2), 'violations': len(new)}
        json.dump(ev, open(os.path.join(od, s.pid + '.json'), 'w'), indent=1, default=str)
        for o in bad:
            if o[1] in known: print('KNOWN-FINDING: property=%s %s' % (s.pid, known[o[1]]))
        print('%s: %d obligations, %d discharged, %d undecided, %d violated, %.1f s' % (s.pid, len(s.obs), ev['coverage']['discharged'], len(und), len(bad), ev['wall_s']))
        for o in und[:20]: print('  undecided %s %s: %s' % (o[1], o[2], o[3]))
        if not new: return 0
        rp = os.path.join(VERIF, '.work', 'violation-%s.json' % s.pid)
        json.dump([{'key': o[1], 'where': o[2], 'detail': o[3]} for o in new], open(rp, 'w'), indent=1)
        for o in new[:25]: print('  %s  [%s]  %s' % (o[1], o[2], o[3]))
        print('VIOLATION property=%s replay=%s' % (s.pid, rp))
        return 1

def _work(i):
    key, f, w = _JOBS[i]
    r = Report('x', '')
    r.attempt(key, f, w)
    return r.obs[0][0], r.obs[0][3]

def where(fn, line=None):
    return '%s:%s %s' % (fn.span[0], line if line is not None else fn.span[1], fn.path)
