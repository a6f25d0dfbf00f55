"""Check context: facts, units, verdicts, evidence."""
import json, os, sys, time, shutil, hashlib, traceback
import facts as factsmod
from terms import *
import terms, domain
import units
from engine import Undecided, St

VERIF = factsmod.VERIF
EV = os.path.join(VERIF, 'evidence')

class Anchor(Exception):
    """Something a property is anchored on no longer exists."""

PATH_OPS = ('save', 'save_sync', 'opt_save', 'opt_save_sync', 'open', 'file_open', 'load', 'inspect', 'inspector')

class Ctx:
    def __init__(self, prop, tier='quick', fx=None):
        self.prop, self.tier = prop, tier
        self.fxs = {}
        if fx is not None:
            self.fxs['all'] = fx
        self.violations = {}      # key -> (message, detail)
        self.undecided = []
        self.counts = {}
        self.rules = {}
        self.cache = {}
        self.t0 = time.time()
        self.analysed = set()
        self.unmodelled = {}
        self.notes = []
        self.alias = None
        self.opaque = {}          # unit name -> why its paths are not fully understood
        self.part = False         # one configuration among several (C24): floors are those of the full build
        self.nofiles = False      # a target without files: operations on paths do not exist

    # ---- facts
    def fx_for(self, feat='all'):
        if feat not in self.fxs:
            p = factsmod.extract(feat)
            try:
                self.fxs[feat] = factsmod.Facts(p)
            finally:
                shutil.rmtree(os.path.dirname(p), ignore_errors=True)
        return self.fxs[feat]
    @property
    def fx(self):
        return self.fx_for('all')

    # ---- results
    def violate(self, key, msg, detail=''):
        why = self.opaque.get(key.split(':')[0]) or self.opaque.get(key.split(' ')[0])
        if why:
            return self.undec('%s: %s (not decided: %s)' % (key, msg, why))
        self.violations.setdefault(key, (msg, str(detail)))
    def undec(self, what):
        if what not in self.undecided:
            self.undecided.append(what)
    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n
    def here(self, name):
        """Does this probe operation exist on the target analysed?"""
        return not (self.nofiles and name in PATH_OPS)
    def floor(self, what, n):
        """At least n instances must have been analysed (confirmed by hand), or the check is vacuous."""
        if self.part:
            n = 1
        if self.counts.get(what, 0) < n:
            raise Anchor('only %d %s analysed, at least %d expected' % (self.counts.get(what, 0), what, n))
    def ob(self, rule, n=1):
        self.rules[rule] = self.rules.get(rule, 0) + n

    # ---- units
    def row(self, path):
        r = self.fx.byp.get(path)
        if not r:
            raise Anchor('no body for %s' % path)
        return r[0]
    def find(self, m, self_s=None, tr=None, opt=False):
        r = units.find(self.fx, m, self_s, tr)
        if not r and not opt:
            raise Anchor('no %s for %s' % (m, self_s))
        return r[0] if r else None
    def unit(self, row, seams=(), keep=None, **kw):
        key = (row['inst'], tuple(seams), tuple(keep or ()), tuple(sorted((k, v) for k, v in kw.items() if isinstance(v, (int, bool, str)))), tuple(kw.get('args') or ()))
        if key in self.cache:
            return self.cache[key]
        u = None
        try:
            u = units.unit(self.fx, row, seams, keep, **kw)
            for i in u.e.analysed:
                self.analysed.add(self.fx.F[i]['p'])
            for k, n in u.e.unmodelled.items():
                self.unmodelled[k] = self.unmodelled.get(k, 0) + n
            self.count('units')
            self.count('outcomes', len(u.outs))
            self.count('blocks', u.e.steps)
        except Undecided as x:
            self.undec('%s: %s' % (row['p'], x))
        except (RecursionError, KeyError, IndexError, AttributeError, TypeError, ValueError) as x:
            if os.environ.get('SA_DEBUG'):
                raise
            self.undec('%s: internal %s %s' % (row['p'], type(x).__name__, x))
        self.cache[key] = u
        return u

# ---- event helpers
def walk(ev):
    """All events, including those of generic loop iterations."""
    for x in ev:
        yield x
        if x[0] == 'loop':
            for c, e in x[3]:
                yield from walk(e)

BADOPS = {'shlw', 'havoc', 'unknown', 'op', 'phi', 'rvalue', 'x', 'partial', 'opaqueitem', 'many', 'itm', 'ithas', 'itlen', 'permuted_by'}

def resolved(*ts):
    """Terms whose meaning is fully known."""
    for t in ts:
        if isinstance(t, (tuple, list)):
            if not resolved(*t):
                return False
            continue
        if not isinstance(t, Tm):
            continue
        for s in subterms(no_jobs(t)):
            if s.op in BADOPS or (s.op == 'ret' and not str(s.a[0]).startswith('atomic')):
                return False
    return True

def no_jobs(t):
    """Node ids named by the place that created them, whatever job they were created with."""
    m = {s: mk('nid', UNIT, s.a[1]) for s in subterms(t) if s.op == 'nid' and s.a[0] is not UNIT}
    return subst(t, m) if m else t

def murky(ev, facts=None, phi=True):
    """Why a path is not fully understood: an unmodelled call that may change state, or a branch on an unknown value."""
    for x in walk(ev):
        if x[0] == 'call' and x[1] in ('unmodelled', 'recursive', 'fnptr') and any(isinstance(a, Tm) and a.op == 'ref' for a in x[4]):
            return 'call of %s' % x[2]
    if facts is not None:
        for a in list(facts.b) + list(facts.v) + list(facts.q):
            for s in subterms(a) if isinstance(a, Tm) and a.op != 'reserved' else ():
                if (s.op in BADOPS and s.op != 'phi') or (s.op == 'ret' and not str(s.a[0]).startswith('atomic')):
                    return 'branch on %s' % sh(s, 80)
    return None

def is_ok(t):
    return t.op == 'agg' and t.a[0] == 'core::result::Result' and t.a[1] == 0
def is_err(t):
    return t.op == 'agg' and t.a[0] == 'core::result::Result' and t.a[1] == 1
def err_of(t):
    return t.a[2][0] if is_err(t) else None
_SH = {}
def sh(t, n=300):
    if not isinstance(t, (Tm, tuple)):
        s = str(t)
        return s if len(s) <= n else s[:n] + '…'
    k = (t, n)
    r = _SH.get(k)
    if r is None:
        s = terms.show(t)
        r = _SH[k] = s if len(s) <= n else s[:n] + '…'
    return r
def mutex_of(t):
    """The mutex a locked value belongs to."""
    for x in subterms(t):
        if x.op == 'locked':
            return x.a[0]
    return None
def strip_sites(t, memo=None):
    """Drops call-site identities, so that equal data reached over different code compares equal."""
    if memo is None:
        memo = {}
    if isinstance(t, Tm):
        r = memo.get(t)
        if r is None:
            if t.op == 'site':
                r = UNIT
            else:
                a = tuple(strip_sites(x, memo) for x in t.a)
                r = t if a == t.a else terms.rebuild(t.op, a)
            memo[t] = r
        return r
    if isinstance(t, tuple):
        return tuple(strip_sites(x, memo) for x in t)
    return t
class Lazy:
    """Text computed when it is needed."""
    def __init__(self, f, *a):
        self.f, self.a = f, a
    def __str__(self):
        return self.f(*self.a)
def path_text(o):
    return Lazy(path_text_, o)
def path_text_(o):
    """Human readable path: result, conditions and events."""
    out = ['result: ' + sh(o.ret, 400)]
    for c in o.facts.conds()[:40]:
        out.append('  if ' + sh(c, 240))
    def evs(ev, ind):
        for x in ev:
            if x[0] == 'loop':
                out.append(ind + 'for each of ' + sh(x[2], 160))
                for c, e in x[3][:8]:
                    out.append(ind + '  when ' + ' and '.join(sh(q, 120) for q in c[:6]))
                    evs(e, ind + '    ')
            else:
                out.append(ind + ' '.join([str(x[0])] + [sh(y, 160) for y in x[1:]]))
    evs(o.ev, '  ')
    return '\n'.join(out[:200])

def variant_name(fx, t):
    if t.op != 'agg':
        return None
    for r in fx.T.values():
        if r.get('k') == 'adt' and r.get('def') == t.a[0]:
            vs = r.get('vs') or []
            if t.a[1] < len(vs):
                return vs[t.a[1]]['n']
    return None

# ---- known findings
def known():
    out = {}
    p = os.path.join(VERIF, 'known-findings.jsonl')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l and not l.startswith('#'):
                d = json.loads(l)
                if d.get('status') == 'known':
                    out[(d['property'], d['key'])] = d
    return out
