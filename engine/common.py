"""Shared driver code: program loading, reports, known findings, floors, evidence."""
import json
import os
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Broken(Exception):
    """The analysis itself cannot be trusted: an anchor vanished or an instance count fell below its floor."""


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.viol = {}
        self.cov = {}
        self.assume = []
        self.rules = []
        self.samples = {}
        self.broken = []
        self.level = 'other'
        self._prog = {}
        with open(os.path.join(VERIF, 'known_findings.json')) as fh:
            kf = json.load(fh)
        self.known = {}
        for e in kf['findings']:
            if e['property'] == pid:
                self.known[e['key']] = e
        self.prog = None

    # -- program
    def load(self, commands=False, witness=False):
        import program
        import summ
        self.prog = program.load_program(
            commands=commands,
            extra_tus=[os.path.join(VERIF, 'engine', 'witness.cc')] if witness else ())
        self.summ = summ.Summ(self.prog)
        self.cov['functions_in_program'] = len(self.prog.funcs)
        self.cov['classes'] = len(self.prog.classes)
        return self.prog, self.summ

    # -- results
    def rule(self, text):
        self.rules.append(text)

    def violation(self, key, text, where=None):
        """key: stable identification of the construct (no line numbers)."""
        v = self.viol.setdefault(key, {'key': key, 'text': text, 'where': where, 'count': 0})
        v['count'] += 1

    def count(self, name, n, floor=None):
        self.cov[name] = n
        if floor is not None and n < floor:
            self.broken.append('%s = %d is below its floor %d' % (name, n, floor))

    def need(self, cond, text):
        if not cond:
            self.broken.append(text)

    def sample(self, name, items, n=400):
        items = list(items)
        self.samples[name] = items[:n]

    def inside_known(self):
        """A known finding stays known when its construct is moved to a helper which only the known function uses."""
        rest = [k for k in self.viol if k not in self.known and '|' in k]
        if not rest or not self.known or self.prog is None:
            return
        up = {}
        for f in self.prog.funcs.values():
            if f.has_body:
                for c in self.summ.direct_calls(f):
                    for g in c[2]:
                        t = self.prog.funcs.get(g)
                        if t is not None and t.kind != 'lambda' and '(' not in t.qn.replace('(anonymous namespace)', ''):
                            up.setdefault(named(t.qn), set()).add(named(f.qn))

        def within(n, goal, seen):
            if n == goal:
                return True
            if n in seen:
                return True
            seen.add(n)
            ups = up.get(n, set()) - {n}
            return bool(ups) and all(within(u, goal, seen) for u in ups)
        for k in sorted(rest):
            head, fn = k.rsplit('|', 1)
            for kk in sorted(self.known):
                h2, f2 = kk.rsplit('|', 1) if '|' in kk else (None, None)
                if h2 is not None and named(h2) == named(head) and within(named(fn), named(f2), set()):
                    v = self.viol.pop(k)
                    old = self.viol.setdefault(kk, dict(v, key=kk, count=0))
                    old['count'] += v['count']
                    break

    def finish(self):
        self.inside_known()
        new = [v for k, v in sorted(self.viol.items()) if k not in self.known]
        old = [v for k, v in sorted(self.viol.items()) if k in self.known]
        wall = time.time() - self.t0
        for v in old:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, self.known[v['key']].get('what', v['text'])))
        stale = [k for k in self.known if k not in self.viol]
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        cov = dict(self.cov)
        cov['explanation'] = ' '.join(self.rules)
        cov['rules'] = self.rules
        cov['instances'] = self.samples
        cov['known_findings_seen'] = [v['key'] for v in old]
        cov['known_findings_not_seen'] = stale
        if self.broken:
            cov['analysis_broken'] = self.broken
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': cov, 'assumptions': self.assume, 'wall_s': round(wall, 3),
              'violations': len(new)}
        cov['violations_found'] = [dict(v) for v in new]
        ep = os.path.join(VERIF, 'evidence', self.pid + '.json')
        with open(ep, 'w') as fh:
            json.dump(ev, fh, indent=1, default=str)
        rp = os.path.join(VERIF, 'evidence', self.pid + '.violations.txt')
        if new:
            with open(rp, 'w') as fh:
                for v in new:
                    fh.write('%s\n    at %s\n    key %s (seen %d times)\n' % (v['text'], v['where'], v['key'], v['count']))
            for v in new[:40]:
                print('%s: %s [%s]' % (v['where'], v['text'], v['key']))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        if os.path.exists(rp):
            os.unlink(rp)
        if self.broken:
            for b in self.broken:
                print('ANALYSIS-BROKEN property=%s %s' % (self.pid, b))
            return 3
        print('property=%s held: %s (%.1fs)' % (self.pid, ', '.join('%s=%s' % (k, v) for k, v in self.cov.items()
                                                              if isinstance(v, (int, float))), wall))
        return 0


def named(qn):
    """The named function around a lambda, without template arguments and namespace."""
    q = qn.replace('(anonymous namespace)::', '').split('(')[0].replace('tkrzw::', '')
    out, d = '', 0
    for ch in q:
        d += ch == '<'
        if d == 0:
            out += ch
        d -= ch == '>'
    return out


def loc(f, line):
    return '%s:%s' % (f.file, line)


def short(qn):
    return qn.replace('tkrzw::', '')
