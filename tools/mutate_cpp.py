#!/usr/bin/env python3
"""developer tool: mutate C++ sources token by token; list the mutants no obligation of the unit reports.
usage: mutate_cpp.py OUT.json [--max N] [--files REGEX] [--from OLD.json]"""
import json
import os
import random
import re
import shutil
import sys
import tempfile
import time
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
import rules.base as base                                      # noqa
import check                                                   # noqa
from engine import cppfront                                    # noqa
from tools.allobl import collect                               # noqa

UN = {'SegmentedArrayPair.h': ['sap'], 'dolfin_functions.cpp': ['dolfin_functions'], 'predicates.cpp': ['predicates'], 'MeshEntityArrays.cpp': ['mea'],
      'MeshEntityArrays.h': ['mea'], 'UserParticleBoundaryFunctions.h': ['upbf_x', 'upbf_xy', 'upbf_xyz'], 'UserParticleBoundaryFunctions_2D_e.h': ['upbf_2De'],
      'UPBFs_spherical_r.h': ['upbf_r'], 'ParticleMeshBoundaryConditions.h': ['upbf_x', 'upbf_r'], 'Pstruct.h': ['part_x', 'part_xy', 'part_xyz', 'part_r'],
      'advance_charged_species_in_E_field_cartesian_x.cpp': ['part_x'], 'advance_charged_species_in_E_field_cartesian_xy.cpp': ['part_xy'],
      'advance_charged_species_in_E_field_spherical_r.cpp': ['part_r'], 'advance_neutral_species_cartesian_xy.cpp': ['part_xy'],
      'advance_neutral_species_cartesian_xyz.cpp': ['part_xyz'], 'advance_charged_species_in_uniform_fields_cartesian_xyz.cpp': ['part_xyz'],
      'dolfin_functions_solib.cpp': ['dolfin_functions_solib'], 'segmented_array_pair_solib.cpp': ['sap'], 'mesh_entity_arrays_solib.cpp': ['mea_solib'],
      'particle_solib.cpp': ['part_x', 'part_xy', 'part_xyz', 'part_r'], 'numpy_types_solib.cpp': ['numpy_types'],
      'user_particle_boundary_functions_solib.cpp': ['upbf_x', 'upbf_xy', 'upbf_xyz'], 'upbfs_spherical_r_solib.cpp': ['upbf_r'],
      'user_particle_boundary_functions_2D_e_solib.cpp': ['upbf_2De']}
SUB = [(r' < (?!<)', ' <= '), (r' <= ', ' < '), (r' > ', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '), (r' && ', ' || '), (r' \|\| ', ' && '),
       (r'(?<=[\w)\]]) ?\+ ?(?=[\w(])', '-'), (r'(?<=[\w)\]]) ?- ?(?=[\w(])', '+'), (r'(?<=[\w)\]]) ?\* ?(?=[\w(])', '/'), (r'(?<=[\w)\]]) ?/ ?(?=[\w(])', '*'),
       (r' \+= ', ' -= '), (r' -= ', ' += '), (r' \*= ', ' /= '), (r'\+\+', '--'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'),
       (r'\b0\b(?!\.)', '1'), (r'\b1\b(?!\.)', '0'), (r'\b1\b(?!\.)', '2'), (r'\b2\b(?!\.)', '1'), (r'\b3\b(?!\.)', '2'), (r'\b1\.0\b', '2.0'), (r'\b0\.0\b', '1.0'), (r'\b2\.0\b', '1.0'),
       (r'\bbreak;', 'continue;'), (r'\bcontinue;', 'break;'), (r'\bif ?\((?=[^;]*\)\s*\{?\s*$)', 'if (not '), (r'"(\w+)"', r'"\1X"'), (r'!(?=\w)', ''),
       (r'\bx_', 'x0_'), (r'\bx0_', 'x_'), (r'\bux_', 'uy_'), (r'\by_', 'x_'), (r'\bcell_index_', 'crossings_'), (r' & ', ' | '), (r' \| ', ' & '), (r' \|= ', ' &= ')]


def strip(text):
    """mask comments with blanks"""
    def bl(m):
        return re.sub(r'[^\n]', ' ', m.group(0))
    return re.sub(r'//[^\n]*|/\*.*?\*/', bl, text, flags=re.S)


def sites(name, text):
    m0 = strip(text)
    out = []
    off = 0
    for ln, line in enumerate(m0.split('\n')):
        s = line.strip()
        skip = not s or s.startswith('#') or 'cout' in s or 'throw' in s or 'cerr' in s or 'std::string' in s and 'Msg' in s or s.startswith(('template', 'using', 'typedef')) or 'printf' in s
        if not skip:
            for pat, rep in SUB:
                if 'template' in s or '<<' in s:
                    continue
                for m in re.finditer(pat, line):
                    out.append((ln + 1, off + m.start(), off + m.end(), m.expand(rep) if '\\' in rep else rep, '%s -> %s' % (pat, rep)))
            if s.endswith(';') and '(' in s + '=' and not s.startswith(('return', 'const', 'auto', 'int ', 'double ', 'for', 'size_t', 'py::', 'std::', 'dolfin::', 'bool ', 'static', 'class')) and ('=' in s or s.endswith(');') or '++' in s):
                a = line.index(s)
                out.append((ln + 1, off + a, off + a + len(s), ';', 'delete'))
        off += len(line) + 1
    return out


_T = {}


def job(a):
    file, ln, lo, hi, rep, d = a
    text = _T['text'][file]
    new = text[:lo] + rep + text[hi:]
    root = _T['root']
    t = tempfile.mkdtemp(prefix='mut')
    try:
        os.mkdir(t + '/cpp')
        for f in os.listdir(root + '/cpp'):
            if f.endswith(('.cpp', '.h')) and f != file:
                os.symlink(os.path.join(root, 'cpp', f), os.path.join(t, 'cpp', f))
        for f in os.listdir(root):
            if f.endswith('.py'):
                os.symlink(os.path.join(root, f), os.path.join(t, f))
        open(os.path.join(t, 'cpp', file), 'w').write(new)
        base.REPO = t
        und = 0
        for u in UN[file]:
            base._worlds.pop(u, None)
            try:
                base.preload([u])
            except base.Broken as e:
                return a, 'invalid', str(e)[:100]
            except Exception as e:
                return a, 'crash', repr(e)[:100]
            for o in _T['obl'].get(u, []):
                check._OBLS[:] = [o]
                r = check.run_one((0, 1, 'quick'))
                if r.status == 'violated':
                    return a, 'killed', o.name
                if r.status == 'undecided':
                    und += 1
        return a, 'undecided' if und else 'survived', ''
    finally:
        shutil.rmtree(t)


if __name__ == '__main__':
    args = sys.argv[1:]
    opt = {}
    for k in ('--max', '--files', '--from'):
        if k in args:
            i = args.index(k)
            opt[k] = args[i + 1]
            del args[i:i + 2]
    _T['root'] = base.REPO
    _T['text'] = {}
    _T['obl'] = {}
    for o in collect(['--cpp']):
        if hasattr(o, 'spec'):
            _T['obl'].setdefault(o.mods()[0], []).append(o)
        else:
            for u in o.mods():
                _T['obl'].setdefault(u, []).append(o) if len(o.mods()) == 1 else None
    base.specworld()
    jobs = []
    for f in UN:
        if '--files' in opt and not re.search(opt['--files'], f):
            continue
        _T['text'][f] = open(os.path.join(base.REPO, 'cpp', f)).read()
        jobs += [(f,) + s for s in sites(f, _T['text'][f])]
    if '--from' in opt:
        old = {x[1] for x in json.load(open(opt['--from']))}
        jobs = [j for j in jobs if '%s:%d@%d %s' % (j[0], j[1], j[2], j[5]) in old]
    random.Random(1).shuffle(jobs)
    if '--max' in opt:
        jobs = jobs[:int(opt['--max'])]
    print(len(jobs), 'mutants')
    import multiprocessing as mp
    t0 = time.time()
    cnt = {}
    out = []
    with mp.get_context('fork').Pool(8, maxtasksperchild=20) as pool:
        for a, st, by in pool.imap_unordered(job, jobs, chunksize=1):
            cnt[st] = cnt.get(st, 0) + 1
            if st in ('survived', 'undecided', 'crash'):
                line = _T['text'][a[0]].split('\n')[a[1] - 1].strip()
                out.append((st, '%s:%d@%d %s' % (a[0], a[1], a[2], a[5]), line, by))
    out.sort(key=lambda x: (x[1].split(':')[0], int(x[1].split(':')[1].split('@')[0])))
    json.dump(out, open(args[0], 'w'), indent=0)
    print(cnt, '%.0f s' % (time.time() - t0))
