"""P32: the core works without optional packages, however Python is started."""
import itertools
import json
import os
import subprocess
import sys

from mc import core

PROPERTY = 'P32'
BOUNDS = ('every subset of numpy, vectormath, pypng and traitlets missing '
          '(absent or broken) and 17 ways to start Python (-O, -OO, -X dev, '
          '-B, hash seeds, time zones, locales, working directories), alone '
          'and with every package missing (thorough: with every subset); in '
          'each, 45 000 operations: every type x 60 values x assign, '
          'construct, load, save, validate, copy, compare, delete, default; '
          'mutations, listeners, links, extras, pickles, documentation.')
ASSUMPTIONS = ['messages of errors are not compared']

BATTERY = os.path.join(os.path.dirname(os.path.dirname(
    os.path.abspath(__file__))), 'mc', 'battery.py')
OPTIONAL = ('numpy', 'vectormath', 'png', 'traitlets')
MATH = ('Array', 'Vector2', 'Vector2Array', 'Vector3', 'Vector3Array')
CORE = (
    'Bool Boolean Color Complex DateTime Dictionary File '
    'Float GettableProperty HasProperties Instance Integer List Property '
    'Renamed SelfReferenceError Set String StringChoice Tuple Union Uuid '
    'ValidationError copy directional_link equal everything filter_props '
    'link listeners_disabled observer observers_disabled '
    'stop_recursion_with undefined validator validators_disabled').split()
WAYS = {
    'plain': ([], {}), '-O': (['-O'], {}), '-OO': (['-OO'], {}),
    '-X dev': (['-X', 'dev'], {}), '-B': (['-B'], {}),
    'hash seed 1': ([], {'PYTHONHASHSEED': '1'}),
    'hash seed 2': ([], {'PYTHONHASHSEED': '2'}),
    'hash seed 3': ([], {'PYTHONHASHSEED': '3'}),
    'hash seed 4': ([], {'PYTHONHASHSEED': '4'}),
    'hash seed 99': (['-O'], {'PYTHONHASHSEED': '99'}),
    'Tokyo': ([], {'TZ': 'Asia/Tokyo'}),
    'Berlin': ([], {'TZ': 'CET-1CEST,M3.5.0,M10.5.0/3'}),
    'far west': ([], {'TZ': 'XYZ+11:30'}),
    'C locale': ([], {'LC_ALL': 'C', 'PYTHONUTF8': '0'}),
    'UTF-8': ([], {'LC_ALL': 'C.UTF-8', 'PYTHONUTF8': '1'}),
    'elsewhere': ([], {'cwd': '/'}),
    'warnings': (['-W', 'always'], {}),
}


def run(ctx, missing, kind, way):
    flags, env = WAYS[way]
    env = dict({k: v for k, v in os.environ.items()
                if k not in ('PYTHONPATH', 'PYTHONOPTIMIZE', 'TZ')},
               **dict({'PYTHONHASHSEED': '0'}, **env))
    env['PYTHONDONTWRITEBYTECODE'] = '1'
    cwd = env.pop('cwd', None)
    # a symbol defined by IPython is no part of the environment
    done = subprocess.run(
        [sys.executable] + flags + [BATTERY, core.REPO, kind] + list(missing),
        stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd,
        timeout=300)
    try:
        return json.loads(done.stdout)
    except ValueError:
        ctx.fail('the library does not work: %s' % done.stderr.decode(
            errors='replace').strip()[-600:])


FULL = []


def full(ctx):
    if not FULL:
        FULL.append(run(ctx, (), 'absent', 'plain'))
    return FULL[0]


def judge(ctx, missing, kind, way):
    want = dict(full(ctx))
    lost = set()
    if set(missing) & {'numpy', 'vectormath'}:
        lost.update(MATH)
        want['modules: math'] = 'missing'
    if 'png' in missing:
        lost.add('ImagePNG')
        want['modules: images'] = 'missing'
    for name in CORE:
        ctx.check('names: properties.' + name in want, lambda: '%s is not '
                  'offered' % name)
    for name in lost:
        want.pop('names: properties.' + name, None)
    want['modules: star'] = [name for name in want['modules: star']
                             if name not in lost]
    have = run(ctx, missing, kind, way)

    def kept(key):
        if 'Array' in lost and key.startswith('arrays: '):
            return False
        if 'ImagePNG' in lost and key.startswith('images: '):
            return False
        if way == '-OO' and (key.endswith(' doc') or
                             key.endswith(' documented')):
            return False
        return True
    want = {k: v for k, v in want.items() if kept(k)}
    have = {k: v for k, v in have.items() if kept(k)}
    gone = sorted(set(want) - set(have))
    ctx.check(not gone, lambda: 'missing: %s' % gone[:5])
    more = sorted(set(have) - set(want))
    ctx.check(not more, lambda: 'unexpected: %s' % more[:5])
    for key in sorted(want):
        if want[key] != have[key]:
            ctx.fail('%s gives %s, with all packages %s' % (
                key, core.show(have[key]), core.show(want[key])))
    ctx.step(len(have))
    ctx.state((missing, kind, way))


def started(ctx, way, subsets, kinds):
    ctx.sample('%s without %s' % (way, [' '.join(s) for s in subsets][:3]))
    for missing, kind in itertools.product(subsets, kinds):
        if not missing and kind == 'broken':
            continue
        core.case(ctx, 'python %s, %s %s' % (
            way, kind, ', '.join(missing) or 'nothing'), judge, ctx, missing,
            kind, way)


def scenarios(tier):
    every = [tuple(s) for n in range(len(OPTIONAL) + 1)
             for s in itertools.combinations(OPTIONAL, n)]
    for part in range(8):
        yield 'subsets %d/8' % part, lambda ctx, part=part: started(
            ctx, 'plain', every[part::8], ('absent', 'broken'))
    ways = [way for way in WAYS if way != 'plain']
    if tier == 'quick':
        for part in range(8):
            yield 'ways %d/8' % part, lambda ctx, part=part: [started(
                ctx, way, [(), OPTIONAL], ('absent',))
                for way in ways[part::8]]
        return
    for way in ways:
        for part in range(4):
            yield '%s %d/4' % (way, part), lambda ctx, way=way, part=part: \
                started(ctx, way, every[part::4], ('absent',))
