#!/usr/bin/env python3
"""Decides one property:  check.py <property id>   (VERIF_TIER=quick|thorough, VERIF_SEED)

A check is a list of steps.
  model     TLC explores a specification (Init/Next) exhaustively and checks its invariants; it may
            print behaviours (lines "GEN <json>") that drive the implementation.
  run       the harness, built from /repo's working tree, executes cases against the implementation
            and records one JSON line per case.
  validate  TLC checks that every recorded execution is allowed by a specification.

Exit 0: held.  Exit 1 with a VIOLATION line: broken.  Exit 2: the check itself failed.
"""
import json, os, re, resource, shutil, subprocess, sys, time, concurrent.futures as cf

VERIF = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
TARGET = os.path.join(HARNESS, 'target')
REPO = '/repo'
CPUS = os.cpu_count() or 8
GIB = 1 << 30


class ToolError(Exception):
    pass


class Violated(Exception):
    """Enough is known: the rest of the check is not run."""


def env(**more):
    e = dict(os.environ)
    e.update(HOME='/root', CARGO_NET_OFFLINE='true', RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu',
             RUSTC_WRAPPER='', CARGO_TERM_COLOR='never')
    e['PATH'] = '/usr/local/bin:/usr/bin:/bin:' + e.get('PATH', '')
    e.update({k: str(v) for k, v in more.items()})
    return e


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.seed = int(os.environ.get('VERIF_SEED', '1') or '1')
        self.tier = 'thorough' if os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
        self.thorough = self.tier == 'thorough'
        self.out = os.path.join(VERIF, 'out', prop)
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        self.t0 = time.time()
        self.states = self.transitions = self.traces = 0
        self.parts = []
        self.samples = []
        self.outcomes = {}
        self.violations = []
        self.known = {}

    # --- tools ---

    def build(self, *bins, profile='dev'):
        for b in bins:
            args = ['cargo', 'build', '--offline', '--quiet', '--target-dir', TARGET, '--profile', profile, '--bin', b]
            for more in [[], ['--no-default-features']]:
                p = subprocess.run(args + more, cwd=HARNESS, env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if p.returncode == 0:
                    break
            else:
                codes = set(re.findall(r'^error\[(E\d+)\]', p.stdout, re.M))
                e = ToolError('the harness does not build:\n' + p.stdout[-6000:])
                # the compiler evaluates the layouts
                e.refused = codes == {'E0080'} and '--> /repo/' in p.stdout
                raise e

    def tlc(self, spec, cfg=None, cases=None, name=None, workers=None, extra=(), more_env=None, heap=6):
        name = name or spec
        meta = os.path.join(self.out, 'tlc-' + name)
        cmd = ['java', f'-Xmx{heap}g', '-Xss64m', '-XX:+UseParallelGC', '-cp',
               '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar', 'tlc2.TLC',
               '-metadir', meta, '-noGenerateSpecTE', '-workers', str(workers or CPUS),
               '-config', (cfg or spec) + '.cfg', *extra, spec + '.tla']
        e = env(CASES=cases or '', **(more_env or {}))
        log = os.path.join(self.out, f'tlc-{name}.log')
        # TLC was seen to stop without an end (twice in thousands of runs); a run that was killed says nothing
        for limit in [6 * 3600] if self.thorough else [260, 500]:
            rc = None
            shutil.rmtree(meta, ignore_errors=True)
            with open(log, 'w') as f:
                try:
                    rc = subprocess.run(cmd, cwd=SPEC, env=e, stdout=f, stderr=subprocess.STDOUT, timeout=limit).returncode
                except subprocess.TimeoutExpired:
                    pass
            if rc is not None and rc >= 0:
                break
        if rc is None:
            raise ToolError(f'TLC took too long: {name}')
        shutil.rmtree(meta, ignore_errors=True)
        text = open(log, errors='replace').read()
        m = re.findall(r'^(\d+) states generated, (\d+) distinct states found', text, re.M)
        if m:
            self.transitions += int(m[-1][0])
            self.states += int(m[-1][1])
        return rc, text, (int(m[-1][1]) if m else 0)

    # --- steps ---

    def model(self, spec, cfg=None, name=None, workers=None, gen=False, extra=()):
        """Explores a specification; returns the generated behaviours."""
        name = name or (cfg or spec)
        t = time.time()
        rc, text, n = self.tlc(spec, cfg, name=name, workers=1 if gen and not workers else workers, extra=extra)
        if rc != 0:
            raise ToolError(f'the specification {name} does not hold:\n' + tail(text))
        part = {'step': 'model', 'spec': name, 'distinct_states': n, 'wall_s': round(time.time() - t, 1)}
        path = None
        if gen:
            lines = sorted(set(re.findall(r'^"GEN (.*)"$', text, re.M)), key=lambda s: (len(s), s))
            lines = [l.replace('\\"', '"').replace('\\\\', '\\') for l in lines]
            path = os.path.join(self.out, f'gen-{name}.ndjson')
            open(path, 'w').write('\n'.join(lines) + '\n')
            part['behaviours'] = len(lines)
            if not lines:
                raise ToolError(f'{name} generated nothing')
        self.parts.append(part)
        return path

    def run(self, bin_, mode, gen=None, shards=CPUS, name=None, more_env=None):
        """Records executions of the implementation."""
        name = name or f'{bin_}-{mode}'
        t = time.time()
        base = os.path.join(self.out, name)
        with cf.ThreadPoolExecutor(shards) as ex:
            files = list(ex.map(lambda k: self.shard(bin_, mode, gen, base, k, shards, more_env), range(shards)))
        path = base + '.ndjson'
        n = 0
        count = {}
        with open(path, 'w') as out:
            for f in files:
                for line in open(f, errors='replace'):
                    out.write(line)
                    n += 1
                    m = re.search(r'"o":"(\w+)"', line)
                    o = m.group(1) if m else '?'
                    count[o] = count.get(o, 0) + 1
                    if n % 997 == 3 and len(self.samples) < 6 and len(line) < 3000:
                        self.samples.append(json.loads(line))
                os.unlink(f)
        if n == 0:
            raise ToolError(f'{name} recorded nothing')
        self.parts.append({'step': 'run', 'name': name, 'executions': n, 'outcomes': count, 'wall_s': round(time.time() - t, 1)})
        return path

    def shard(self, bin_, mode, gen, base, k, shards, more_env):
        out = f'{base}.{k}'
        crashed = []
        start = 0
        for _ in range(6):
            e = env(VERIF_SHARD=f'{k}/{shards}', VERIF_CRASHED=','.join(map(str, crashed)),
                    VERIF_SEED=self.seed, VERIF_TIER=self.tier, VERIF_OUT=self.out, **(more_env or {}))
            cmd = [os.path.join(TARGET, 'debug', bin_), mode, out, str(start)] + ([gen] if gen else [])
            with open(out + '.err', 'w') as err:
                rc = subprocess.run(cmd, cwd=self.out, env=e, stdout=err, stderr=err, stdin=subprocess.DEVNULL,
                                    preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (4 * GIB, 4 * GIB))).returncode
            errtext = open(out + '.err', errors='replace').read()
            at = open(out + '.at').read().strip() if os.path.exists(out + '.at') else ''
            # keep complete lines only
            data = open(out).read() if os.path.exists(out) else ''
            if data and not data.endswith('\n'):
                data = data[:data.rfind('\n') + 1]
                open(out, 'w').write(data)
            if rc == 0:
                break
            if not at.isdigit():
                raise ToolError(f'{bin_} {mode} failed with {rc}: {errtext[-2000:]}')
            crashed.append(int(at))
            start = 0
            if data:
                start = json.loads(data.rstrip('\n').rsplit('\n', 1)[-1])['i'] + 1
        else:
            # cases are left out only because of crashes, and these must show
            if not data or '"o":"crash"' not in data:
                raise ToolError(f'{bin_} {mode} crashes again and again: {errtext[-2000:]}')
        for s in ('.err', '.at'):
            if os.path.exists(out + s):
                os.unlink(out + s)
        return out

    def validate(self, spec, cases, name=None, part=48 << 20):
        """Checks recorded executions against a specification, at most `part` bytes at a time."""
        name = name or os.path.basename(cases).rsplit('.', 1)[0]
        if os.path.getsize(cases) <= part:
            return self.validate_part(spec, cases, name)
        k = size = 0
        out = None
        parts = []
        with open(cases) as f:
            for line in f:
                if out is None or size + len(line) > part:
                    if out:
                        out.close()
                    k += 1
                    size = 0
                    parts.append(f'{cases[:-7]}.part{k}.ndjson')
                    out = open(parts[-1], 'w')
                out.write(line)
                size += len(line)
        out.close()
        if not os.environ.get('VERIF_KEEP'):
            os.unlink(cases)
        for k, path in enumerate(parts):
            self.validate_part(spec, path, f'{name}.part{k + 1}')

    def validate_part(self, spec, cases, name):
        t = time.time()
        rc, text, n = self.tlc(spec, cases=cases, name=name)
        total = sum(1 for _ in open(cases))
        for m in re.finditer(r'^"KNOWN (\S+) (.*)"$', text, re.M):
            self.known.setdefault(m.group(1), m.group(2))
        if rc == 0:
            if n != total + 1:
                raise ToolError(f'{name}: {total} executions, but {n} states')
        else:
            m = re.findall(r'^/\\ pos = (\d+)', text, re.M)
            what = re.search(r'Invariant (\w+) is violated', text)
            fatal = re.search(r'OutOfMemory|StackOverflow|GC overhead', text)
            if not m or int(m[-1]) == 0 or fatal:
                raise ToolError(f'TLC failed on {name} ({rc}):\n' + tail(text))
            line = open(cases).read().split('\n')[int(m[-1]) - 1]
            self.violation(spec, what.group(1) if what else 'outside of the domain of the specification', line, name)
            raise Violated()
        self.traces += total
        self.parts.append({'step': 'validate', 'spec': spec, 'cases': name, 'executions': total, 'wall_s': round(time.time() - t, 1)})
        if not os.environ.get('VERIF_KEEP') and rc == 0:
            os.unlink(cases)

    def violation(self, spec, what, line, name):
        k = len(self.violations)
        path = os.path.join(self.out, f'violation-{k}.json')
        open(path, 'w').write(line + '\n')
        self.violations.append({'spec': spec, 'invariant': what, 'cases': name, 'replay': path, 'case': line[:2000]})

    # --- the result ---

    def finish(self, level='model_checking', exhaustive=False):
        listed = known_findings(self.prop)
        for kid, text in self.known.items():
            if kid not in listed:
                self.violation('known findings', f'unlisted finding {kid}', json.dumps(text), 'known')
            else:
                print(f'KNOWN-FINDING: property={self.prop} {kid}: {listed[kid]} (e.g. {text})')
        cov = {'states': self.states, 'transitions': self.transitions,
               'traces_validated_against_impl': self.traces, 'samples': self.samples[:6], 'steps': self.parts}
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': level, 'coverage': cov,
              'assumptions': ASSUMPTIONS, 'wall_s': round(time.time() - self.t0, 1), 'violations': len(self.violations)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        for p in self.parts:
            print(' '.join(f'{k}={v}' for k, v in p.items()))
        for v in self.violations:
            print(f"{v['spec']}: {v['invariant']}: {v['case'][:600]}")
            print(f"VIOLATION property={self.prop} replay={v['replay']}")
        print(f'{self.prop} {self.tier} seed={self.seed}: {self.traces} executions validated, {self.states} states, '
              f'{round(time.time() - self.t0, 1)} s, {len(self.violations)} violation(s)')
        return 1 if self.violations else 0


ASSUMPTIONS = [
    'TLC and the CommunityModules evaluate the specification correctly',
    'the harness records what the implementation returned',
]


def tail(text):
    lines = [l for l in text.split('\n') if not re.match(r'(Parsing|Semantic|Linting|"GEN)', l)]
    return '\n'.join(lines[-40:])[-5000:]


def known_findings(prop):
    """Entries `finding: property=<id> <key> <text>` of known-findings.txt."""
    r = {}
    path = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(path):
        for l in open(path):
            m = re.match(r'finding: property=(\S+) (\S+) (.*)', l)
            if m and m.group(1) == prop:
                r[m.group(2)] = m.group(3).strip()
    return r


# --- the checks ---

def c01(c):
    c.build('lex')
    c.model('LexMC')
    if c.thorough:
        c.model('LexMC', 'LexMCNumbers')
        c.model('LexMC', 'LexMCComments')
        c.model('LexMC', 'LexMCStrings')
    gen = c.model('LexGen', gen=True)
    c.validate('LexTrace', c.run('lex', 'suite', gen))
    c.validate('LexTrace', c.run('lex', 'random'))
    c.validate('LexTrace', c.run('lex', 'sweep', gen, name='lex-sweep'))
    long(c, 'lex')


def c02(c):
    c.build('lex')
    c.model('LexMC', 'LexMCNumbers' if c.thorough else 'LexMCNumbers5')
    c.model('NearestMC', 'NearestMCbig' if c.thorough else None)
    c.model('RoundMC', 'RoundMCbig' if c.thorough else None)
    c.validate('LexTrace', c.run('lex', 'numbers'))


def c03(c):
    c.build('lex')
    c.model('LexMC', 'LexMCStrings' if c.thorough else 'LexMCStrings4')
    c.validate('LexTrace', c.run('lex', 'strings'))
    gen = c.model('LexGen', gen=True)
    c.validate('LexTrace', c.run('lex', 'sweep', gen, name='lex-sweep'))
    long(c, 'str')


def large(c):
    c.build('large')
    gen = c.model('LargeMC', 'LargeMCbig' if c.thorough else None, gen=True, workers=CPUS)
    c.validate('LargeTrace', c.run('large', c.prop, gen))


def c04(c):
    c.build('load')
    c.model('GrammarMC', 'GrammarMCvalues6' if c.thorough else 'GrammarMCvalues')
    gen = c.model('ParserGen', 'ParserGenBig' if c.thorough else None, gen=True)
    c.validate('LoadTrace', c.run('load', 'values', gen))
    c.validate('LoadTrace', c.run('load', 'randvalues'))
    c.validate('LoadTrace', c.run('load', 'tokens'))
    large(c)


def c05(c):
    c.build('load')
    c.model('GrammarMC', 'GrammarMCbig' if c.thorough else None)
    gen = c.model('ParserGen', 'ParserGenBig' if c.thorough else None, gen=True)
    c.validate('LoadTrace', c.run('load', 'modules', gen))
    c.validate('LoadTrace', c.run('load', 'randmodules'))
    large(c)


def c06(c):
    c.build('load')
    for cfg in ['LoaderMC', 'LoaderMC3', 'LoaderMCchange'] + (['LoaderMCbig', 'LoaderMCchange2'] if c.thorough else []):
        gen = c.model('LoaderMC', cfg, gen=True, workers=CPUS)
        c.validate('LoadTrace', c.run('load', 'behaviours', gen, name=f'load-{cfg}'))
    c.validate('LoadTrace', c.run('load', 'systems'))
    large(c)


def long(c, mode):
    c.build('long')
    c.model('LongMC')
    c.validate('LongTrace', c.run('long', mode))


def bulk(c, mode):
    c.build('bulk')
    c.model('BulkMC')
    c.validate('BulkTrace', c.run('bulk', mode))


def c07(c):
    c.build('ser')
    gen = c.model('SerMC', 'SerMC4' if c.thorough else None, gen=True, workers=CPUS)
    c.validate('SerTrace', c.run('ser', 'json', gen))
    bulk(c, 'json')
    long(c, 'json')


def c08(c):
    c.build('ser')
    gen = c.model('SerMC', 'SerMC4' if c.thorough else None, gen=True, workers=CPUS)
    c.validate('SerTrace', c.run('ser', 'djs', gen))
    if c.thorough:
        gen = c.model('SerMC', 'SerMC33', gen=True, workers=CPUS)
        c.validate('SerTrace', c.run('ser', 'djs', gen, name='ser-djs33'))
    bulk(c, 'djs')
    long(c, 'djs')


def c09(c):
    c.build('heap', 'many')
    c.model('CountsMC')
    c.validate('CountsTrace', c.run('many', 'all'))
    for cfg in ['HeapMC', 'HeapMC3'] + (['HeapMCbig'] if c.thorough else []):
        gen = c.model('HeapMC', cfg, gen=True, workers=CPUS)
        c.validate('HeapTrace', c.run('heap', 'ops', gen, name=f'heap-{cfg}'))
    c.validate('HeapTrace', c.run('heap', 'walks'))


def c10(c):
    bins = ['load', 'ser', 'lex', 'bigint', 'bigfloat']
    c.build('heap', 'layout', 'many', *bins)
    for b in bins:
        c.validate('MemTrace', c.run(b, 'memory'))
    for b in ['layout', 'many']:
        c.validate('MemTrace', c.run(b, 'all'))
    c.validate('HeapTrace', c.run('heap', 'walks'))


def c11(c):
    c.build('anyv')
    c.model('NanBoxMC')
    c.validate('AnyTrace', c.run('anyv', 'all'))


def sparse(c):
    c.build('sparse')
    c.model('SparseMC', 'SparseMCbig' if c.thorough else None)
    c.validate('SparseTrace', c.run('sparse', c.prop))


def c12(c):
    c.build('bigint')
    c.model('OracleMC', 'OracleMCbig' if c.thorough else None)
    c.validate('BigTrace', c.run('bigint', 'arith'))
    sparse(c)


def c13(c):
    c.build('bigint')
    c.model('OracleMC', 'OracleMCbig' if c.thorough else None)
    c.model('DivideMC', 'DivideMCbig' if c.thorough else None)
    c.validate('BigTrace', c.run('bigint', 'div'))
    sparse(c)


def c14(c):
    c.build('bigint')
    c.model('OracleMC', 'OracleMCbig' if c.thorough else None)
    c.validate('BigTrace', c.run('bigint', 'bits'))
    sparse(c)


def c15(c):
    c.build('bignum')
    c.model('OracleMC', 'OracleMCbig' if c.thorough else None)
    c.model('DivideMC', 'DivideMCbig' if c.thorough else None)
    c.validate('BigNumTrace', c.run('bignum', 'all'))
    sparse(c)


def c16(c):
    c.build('bigfloat')
    c.model('NearestMC', 'NearestMCbig' if c.thorough else None)
    c.model('RoundMC', 'RoundMCbig' if c.thorough else None)
    c.validate('FloatTrace', c.run('bigfloat', 'tof64'))
    c.validate('FloatTrace', c.run('bigfloat', 'tobin'))


def c17(c):
    c.build('rmap')
    c.model('RangeMC')
    for mode in ('small', 'random', 'ranges', 'many', 'lists'):
        c.validate('RangeTrace', c.run('rmap', mode))


def c18(c):
    c.build('bitset')
    c.model('BitSetMC')
    c.validate('BitSetTrace', c.run('bitset', 'all'))


def c19(c):
    c.build('path')
    c.model('PathMC')
    c.validate('PathTrace', c.run('path', 'all'))


def c20(c):
    c.build('app')
    target = os.path.join(TARGET, 'app')
    p = subprocess.run(['cargo', 'build', '--offline', '--quiet', '-p', 'nanvm', '--target-dir', target], cwd=REPO,
                       env=env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise ToolError('nanvm does not build:\n' + p.stdout[-6000:])
    e = {'NANVM': os.path.join(target, 'debug', 'nanvm')}
    gen = c.model('AppMC', gen=True, workers=CPUS)
    for mode in ('mock', 'randmock', 'real', 'randreal'):
        g = None if mode.startswith('rand') else gen
        c.validate('AppTrace', c.run('app', mode, g, more_env=e))
    c.validate('AppTrace', c.run('app', 'chain', c.model('ChainMC', gen=True), more_env=e))


def c21(c):
    c.model('LayoutMC', 'LayoutMCbig' if c.thorough else None)
    try:
        c.build('layout')
    except ToolError as e:
        if not getattr(e, 'refused', False):
            raise
        # Every header and element of the harness has a layout that the specification allows.
        c.violation('Layout', 'the code refuses a header and an element at compile time', json.dumps({'log': str(e)}), 'build')
        return
    c.validate('LayoutTrace', c.run('layout', 'all'))


def c22(c):
    gen = c.model('MovesMC', 'MovesMCbig' if c.thorough else None, gen=True)
    c.build('moves')
    # once more, without the checks that a release build leaves out
    c.build('moves', profile='unchecked')
    e = {'MOVES': os.path.join(TARGET, 'unchecked', 'moves')}
    c.validate('MovesTrace', c.run('moves', 'calls', gen, more_env=e))


def c23(c):
    gen = c.model('CounterMC', 'CounterMCbig' if c.thorough else None, gen=True)
    c.build('counter')
    # each case has several threads that have to run at the same time
    c.validate('CounterTrace', c.run('counter', 'race', gen, shards=3, more_env={'ROUNDS': 4000 if c.thorough else 1000}))
    c.validate('CounterTrace', c.run('counter', 'many', gen, shards=4, more_env={'MANY': 34 if c.thorough else 32, 'CPU_LIMIT': 400 if c.thorough else 120}))

def c24(c):
    gen = c.model('RepeatMC', 'RepeatMCbig' if c.thorough else None, gen=True)
    c.build('repeat')
    c.validate('RepeatTrace', c.run('repeat', 'histories', gen, more_env={'TIMES': 1 if c.thorough else 2}))


CHECKS = {k.upper(): v for k, v in globals().items() if re.fullmatch(r'c\d\d', k)}


def main():
    prop = sys.argv[1]
    if prop == 'setup':
        sys.exit(max(subprocess.run(['cargo', 'build', '--offline', '--quiet', '--target-dir', TARGET, *more],
                                    cwd=HARNESS, env=env()).returncode
                     for more in (['--bins'], ['--profile', 'unchecked', '--bin', 'moves'])))
    try:
        c = Check(prop)
        try:
            CHECKS[prop](c)
        except Violated:
            pass
        rc = c.finish()
    except ToolError as e:
        print(f'check failed: {e}')
        rc = 2
    sys.exit(rc)


if __name__ == '__main__':
    main()
