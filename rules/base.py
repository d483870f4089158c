"""Obligation framework shared by all properties."""
import ast
import glob
import json
import os
import sys
import warnings

warnings.filterwarnings('ignore')
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('DT_REPO', '/repo')
sys.path.insert(0, VERIF)

from engine.world import World                      # noqa
from engine.build import Cfg, Undecided             # noqa
from engine.compare import compare                  # noqa

PYFILES = ['DT_Module.py', 'Dolfin_Module.py', 'Particle_Module.py', 'RecordedData_Module.py', 'SegmentedArrayPair_Module.py',
           'UserMesh_y_Fields_FE2D_Module.py', 'UserMesh_y_Fields_FE_XYZ_Module.py', 'UserMesh_y_Fields_Spherical1D_Module.py',
           'UserParticles_1D.py', 'UserParticles_2D_e.py', 'UserParticles_3D.py', 'UserParticles_H_He_e.py', 'UserUnits_Module.py']


class Broken(Exception):
    """the analysis cannot find what it must analyse"""


_worlds = {}


def pyworld():
    """every Python module of the repository that the build and tests use (plus new top-level modules)"""
    if 'py' not in _worlds:
        w = World()
        names = list(PYFILES)
        skip = {'DnTrun1.py', 'UserParticles_2D_H_He_e.py'}
        for f in sorted(os.listdir(REPO)):
            if f.endswith('.py') and f not in names and f not in skip:
                names.append(f)
        for f in names:
            p = os.path.join(REPO, f)
            if not os.path.exists(p):
                raise Broken('source file %s is missing' % f)
            try:
                w.add_source(f[:-3], p, open(p).read())
            except SyntaxError as e:
                raise Broken('%s does not parse: %s' % (f, e))
        _worlds['py'] = w
    return _worlds['py']


def specworld():
    if 'spec' not in _worlds:
        w = World()
        for p in sorted(glob.glob(os.path.join(VERIF, 'spec', '*.py'))):
            w.add_source(os.path.basename(p)[:-3], p, open(p).read())
        _worlds['spec'] = w
    return _worlds['spec']


def cppworld(mod):
    if mod not in _worlds:
        from engine import cppfront
        try:
            w, units = cppfront.world_of(REPO, [mod])
        except cppfront.CppError as e:
            raise Broken(str(e))
        _worlds[mod] = (w, units[mod])
    return _worlds[mod]


def preload(mods):
    """parse several C++ translation units in parallel"""
    from concurrent.futures import ThreadPoolExecutor
    from engine import cppfront
    todo = [m for m in mods if m not in _worlds]
    if not todo:
        return
    with ThreadPoolExecutor(8) as ex:
        try:
            list(ex.map(lambda m: cppfront.prefetch(REPO, m), todo))
        except cppfront.CppError as e:
            raise Broken(str(e))
    for m in todo:
        cppworld(m)


def unit(mod):
    return cppworld(mod)[1]


def find(world, module, qual):
    """a function by its public name, wherever it lives now"""
    f = world.get(module, qual)
    if f is not None:
        return f
    if '.' in qual:
        c, n = qual.split('.', 1)
        f = world.method(c, n)
        if f is not None:
            return f
    else:
        c = [x for x in world.by_name.get(qual, []) if x.cls is None]
        if len(c) == 1:
            return c[0]
    return None


BASEATTRS = None


def base_attrs():
    global BASEATTRS
    if BASEATTRS is None:
        BASEATTRS = set(json.load(open(os.path.join(HERE, 'baseline_attrs.json'))))
    return BASEATTRS


class Finding:
    def __init__(self, rule, construct, where, text):
        self.rule, self.construct, self.where, self.text = rule, construct, where, text

    def key(self):
        return '%s %s' % (self.rule, self.construct)


class Result:
    def __init__(self, name, kind):
        self.name, self.kind = name, kind
        self.findings = []
        self.status = 'holds'
        self.info = {}


# what is known about values whatever the obligation
HINTS = {'get_species_particle_count': 'nonneg', 'get_total_particle_count': 'nonneg', 'get_number_of_items': 'nonneg', 'SEGMENT_LENGTH': 'pos',
         'pde_has_constant_coeffs': [True, False], 'use_cpp_integrators': [True, False]}


class Cmp:
    """code function is congruent with its reference definition (in the projection `keys`)"""

    def __init__(self, name, lang, module, qual, spec, keys=None, ignore=(), samples=120, **cfg):
        self.name, self.lang, self.module, self.qual, self.spec = name, lang, module, qual, spec
        self.keys, self.ignore, self.samples, self.cfg = keys, ignore, samples, cfg

    def mods(self):
        return [self.lang[4:]] if self.lang.startswith('cpp:') else []

    def run(self, seed, tier):
        r = Result(self.name, 'congruence')
        w = pyworld() if self.lang == 'py' else cppworld(self.lang[4:])[0]
        f = find(w, self.module, self.qual)
        if f is None:
            raise Broken('%s: function %s is gone' % (self.name, self.qual))
        sw = specworld()
        sm, sq = self.spec.split(':')
        sf = sw.get(sm, sq)
        scls = sf.cls if sf is not None else None
        if sf is None and '.' in sq:
            scls, nm = sq.split('.')
            sf = sw.method(scls, nm)
        if sf is None:
            raise Broken('no reference definition ' + self.spec)
        kw = dict(self.cfg)
        hints = dict(HINTS)
        dfl = f.defaults()
        for i, a in enumerate(f.params):
            if isinstance(dfl.get(a), ast.Constant) and isinstance(dfl[a].value, bool):
                hints['arg%d' % i] = [True, False]       # a flag
        hints.update(kw.get('hints', {}))
        kw['hints'] = hints
        specinline = kw.pop('spec_inline', set())
        spec_kw = kw.pop('spec_cfg', {})
        variants = kw.pop('variants', ({},))
        n = self.samples * (6 if tier == 'thorough' else 1)
        v = None
        for names in variants:          # equally valid ways to keep the same books: any of them will do
            cfg = Cfg(**kw)
            kw2 = dict(kw)
            kw2.update(spec_kw)
            if names:
                kw2['names'] = dict(kw2.get('names', {}), **names)
            cfg2 = Cfg(**kw2)
            cfg2.inline = set(cfg2.inline) | set(specinline)
            cfg2.sigworld = w
            v2 = compare((w, f, self.cls_of(f)), (sw, sf, scls), cfg, cfg2, samples=n, seed=seed,
                         observe_keys=self.keys, ignore_keys=self.ignore, attrs=base_attrs())
            if v is None or v2.status == 'equal':
                v = v2
            if v2.status != 'different':
                break
        r.info = dict(function=f.qual(), file=os.path.relpath(f.file, REPO) if f.file.startswith(REPO) else f.file, line=f.node.lineno,
                      reference=self.spec, **v.stats)
        if v.status == 'undecided':
            r.status = 'undecided'
            r.info['reason'] = v.detail
        if self.lang == 'py' and v.status != 'different':
            for a, d1, d2 in self.defaults(f, sf):
                r.status = 'violated'
                where = '%s:%d' % (r.info['file'], f.node.lineno)
                r.findings.append(Finding('default', '%s[%s]' % (f.qual(), a), where, 'the default of parameter %s of %s (%s) is %s, the reference %s has %s' % (
                    a, f.qual(), where, d1, self.spec, d2)))
        if v.status == 'different':
            r.status = 'violated'
            wr = sorted({x for k in v.keys for x in v.writes.get(k, [])})
            where = '%s:%d' % (r.info['file'], f.node.lineno)
            r.findings.append(Finding('congruence', '%s[%s]' % (f.qual(), self.name), where,
                                      '%s (%s) differs from the reference %s in: %s%s; first at %s' % (
                                          f.qual(), where, self.spec, ', '.join(v.keys),
                                          ' (written at %s)' % ', '.join(x.replace(REPO + '/', '') for x in wr) if wr else '', v.detail)))
        return r

    @staticmethod
    def defaults(f, sf):
        """optional parameters the reference has: same default in the code"""
        out = []
        d1, d2 = f.defaults(), sf.defaults()
        for i, a in enumerate(sf.params):
            if a not in d2 or i >= len(f.params) or 'print' in a or 'plot' in a:
                continue
            b = f.params[i]
            if b not in d1:
                out.append((b, 'missing', ast.unparse(d2[a])))
            elif isinstance(d1[b], ast.Constant) and isinstance(d2[a], ast.Constant) and d1[b].value != d2[a].value:
                out.append((b, ast.unparse(d1[b]), ast.unparse(d2[a])))
        return out

    def cls_of(self, f):
        c = self.qual.split('.')[0] if '.' in self.qual else None
        return c or f.cls


class Rule:
    """a table / extraction rule: fn(seed, tier) -> (list of Finding, info dict with 'instances')"""

    def __init__(self, name, fn, mods=(), minimum=1):
        self.name, self.fn, self._mods, self.minimum = name, fn, list(mods), minimum

    def mods(self):
        return self._mods

    def run(self, seed, tier):
        r = Result(self.name, 'rule')
        try:
            fs, info = self.fn()
        except Undecided as e:
            r.status = 'undecided'
            r.info = {'reason': str(e)}
            return r
        r.findings, r.info = fs, info
        if fs:
            r.status = 'violated'
        elif info.get('instances', 0) < self.minimum:
            raise Broken('%s: only %s rule instances found, %d expected' % (self.name, info.get('instances'), self.minimum))
        return r
