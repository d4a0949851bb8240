#!/usr/bin/env python3
"""probes.py PROPERTY TIER SEED | setup: the monitors which need deku built in other ways than the
harness builds it: R19 (Miri and AddressSanitizer), R21 (feature configurations), R27 (other hosts).
Exit 0: held, 1: violated, 2: no verdict."""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
T = V + '/target'
ENV = {k: v for k, v in os.environ.items() if k not in ('RUSTFLAGS', 'RUSTUP_TOOLCHAIN', 'CARGO_ENCODED_RUSTFLAGS', 'CARGO_TARGET_DIR')}
ENV.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', XDG_CACHE_HOME=T + '/cache')
DEADLINE = time.time() + 840


class NoVerdict(Exception):
    pass


def stamp():
    h = hashlib.sha256()
    files = []
    for d, ds, fs in os.walk('/repo'):
        ds[:] = [x for x in ds if x not in ('.git', 'target')]
        files += [os.path.join(d, f) for f in fs if f.endswith(('.rs', '.toml', '.md'))]
    for f in sorted(files):
        h.update(f.encode() + b'\0' + open(f, 'rb').read())
    return h.hexdigest()


STAMP = stamp()


def fresh(target):
    """What is built must be what /repo contains, whatever its modification times say"""
    f = target + '/stamp'
    old = open(f).read() if os.path.exists(f) else ''
    if old != STAMP:
        for d in glob.glob(target + '/**/.fingerprint/deku*', recursive=True):
            shutil.rmtree(d, ignore_errors=True)
        os.makedirs(target, exist_ok=True)
        open(f, 'w').write(STAMP)


def left(most):
    return max(5, min(most, DEADLINE - time.time()))


def run(cmd, timeout, env=None, cwd=V):
    try:
        p = subprocess.run(cmd, cwd=cwd, env={**ENV, **(env or {})}, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=left(timeout))
        return p.returncode, p.stdout.decode(errors='replace'), p.stderr.decode(errors='replace')
    except subprocess.TimeoutExpired as e:
        return None, (e.stdout or b'').decode(errors='replace'), 'timed out'


def build(crate, name, features, nightly=False, target=None, flags=None, jobs='2', miri=False):
    """-> the path of the binary"""
    dirs = f'{T}/{name}'
    fresh(dirs)
    cmd = ['cargo'] + (['+nightly'] if nightly else []) + ['build', '--offline', '-q', '-j', jobs, '--target-dir', dirs, '--features', features]
    if target:
        cmd += ['--target', target]
    rc, out, err = run(cmd, 800, {'RUSTFLAGS': flags} if flags else None, f'{V}/{crate}')
    if rc != 0:
        os.remove(dirs + '/stamp')
        refused(crate, features, err)
        raise NoVerdict(f'{crate} [{features}] does not build:\n{err[-3000:]}')
    return f'{dirs}/{target + "/" if target else ""}debug/{crate}'


class Refused(Exception):
    """deku builds, but definitions it accepted are refused now, or what it generates for them is"""


def refused(crate, features, err):
    # (what it depends on has been built by then)
    if f'could not compile `{crate}`' in err and re.search(r'^error', err, re.M) and re.search(r'^ +--> src/', err, re.M):
        raise Refused(f'[{features}] what is observed cannot be compiled any more:\n{err[-3000:]}')


# With the default (tree) borrow rules where deku's own unsafe code is all there is; bitvec, which
# `bits` brings, is known to break them, so everything but them is watched with it.
TREE = '-Zmiri-disable-isolation -Zmiri-tree-borrows'
NO_ALIAS = '-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows'
HOSTS = {'x86_64-unknown-linux-gnu': 'little 64', 's390x-unknown-linux-gnu': 'big 64', 'i686-unknown-linux-gnu': 'little 32'}


def miri_setup(target):
    rc, out, err = run(['cargo', '+nightly', 'miri', 'setup', '--target', target], 600)
    if rc != 0:
        raise NoVerdict(f'Miri has no standard library for {target}:\n{err[-2000:]}')


def miri(crate, features, target, args, flags, timeout=700, prepare=False):
    dirs = f'{T}/miri-{crate}-{target.split("-")[0]}-{features.replace(",", "-")}'
    if prepare:
        fresh(dirs)
    cmd = ['cargo', '+nightly', 'miri', 'run', '--offline', '-q', '--target-dir', dirs, '--target', target, '--features', features, '--'] + [str(a) for a in args]
    rc, out, err = run(cmd, timeout, {'MIRIFLAGS': flags}, f'{V}/{crate}')
    if prepare and rc != 0 and 'could not compile' in err:
        os.remove(dirs + '/stamp')
        refused(crate, features, err)
        raise NoVerdict(f'{crate} does not build for {target}:\n{err[-3000:]}')
    return rc, out, err


def many(jobs, workers=8):
    with cf.ThreadPoolExecutor(workers) as ex:
        fs = [ex.submit(*j) for j in jobs]
        return [f.result() for f in fs]


class Report:
    def __init__(self, prop, tier, seed, rule, level='exploration'):
        self.prop, self.tier, self.seed, self.rule, self.level = prop, tier, seed, rule, level
        self.t0 = time.time()
        self.bad, self.known_hit, self.samples, self.extra = [], [], [], {}
        self.evaluations = 0
        self.distinct = set()
        self.known = []
        try:
            for l in open(V + '/known-findings.txt'):
                m = re.match(r'known: property=(\w+) "(.*?)" (.*)', l)
                if m and m.group(1) == prop:
                    self.known.append((m.group(2), m.group(3)))
        except OSError:
            pass

    def violation(self, key, text):
        for sig, what in self.known:
            if sig in key:
                if what not in self.known_hit:
                    self.known_hit.append(what)
                return
        self.bad.append((key, text))

    def end(self):
        n = len(self.bad)
        os.makedirs(V + '/evidence', exist_ok=True)
        cov = {'evaluations': self.evaluations, 'distinct_nontrivial': len(self.distinct), 'rule': self.rule, 'samples': self.samples[:8], **self.extra}
        json.dump({'property': self.prop, 'tier': self.tier, 'seed': self.seed, 'level': self.level, 'coverage': cov, 'wall_s': round(time.time() - self.t0, 2), 'violations': n}, open(f'{V}/evidence/{self.prop}.json', 'w'), indent=1)
        for k in self.known_hit:
            print(f'KNOWN-FINDING: property={self.prop} {k}')
        if n:
            os.makedirs(V + '/replays', exist_ok=True)
            path = f'{V}/replays/{self.prop}.txt'
            with open(path, 'w') as f:
                f.write(f'{n} violations; seed {self.seed}, tier {self.tier}\n\n')
                for k, t in self.bad[:200]:
                    f.write(f'{k}\n{t}\n\n')
            k, t = self.bad[0]
            print(f'{k}\n{t}'[:3000])
            print(f'VIOLATION property={self.prop} replay={path}')
            return 1
        print(f'{self.prop}: {self.evaluations} evaluations, {len(self.distinct)} distinct, 0 violations, {time.time() - self.t0:.1f}s')
        if not self.evaluations or not self.distinct:
            print('no verdict: nothing was observed')
            return 2
        return 0


def lines(out):
    d = {}
    for l in out.splitlines():
        if ' | ' in l:
            k, v = l.split(' | ', 1)
            d[k] = v
    return d


def compare(rep, ref, got, where, crashed, exempt=lambda k: None):
    """Every observation of `got` must be the one `ref` has under the same name"""
    n = 0
    for k, v in got.items():
        name = k.split(' #')[0]
        if name == 'Host':
            continue
        rk = exempt(k) or k
        if rk == '-':
            continue
        r = ref.get(rk)
        if r is None:
            rep.violation(f'{where}: {k}', f'there is no such observation in the reference: {v}')
            continue
        n += 1
        if ' rest ' in v or ' ' in k.split(' #')[1]:
            rep.distinct.add((where, rk if len(rk) < 200 else hash(rk)))
        if r != v:
            i = next((i for i in range(min(len(r), len(v))) if r[i] != v[i]), min(len(r), len(v)))
            i = max(0, i - 60)
            rep.violation(f'{where}: {k}', f'reference: …{r[i:i + 400]}\n     here: …{v[i:i + 400]}')
    rep.evaluations += n
    return n


CONFIGS = ['std,bits,desc', 'std,bits,desc,logging', 'std,bits', 'std,desc', 'std,logging', 'alloc,bits', 'alloc', 'alloc,desc,bits,logging', 'bits', '', 'logging,bits']


def r21(tier, seed):
    rep = Report('R21', tier, seed, 'derived types (structs and enums with every kind of attribute) and the low-level reader, built in every feature configuration; the same inputs (random, small bytes, mutations of accepted ones) in each; an observation is everything one input shows: the decoded value, what is left, what is written, update, a chunked stream, a failing stream, or the class of the error. Counted: (configuration, type, input) with an accepted input, or a sequence of reader operations')
    bins = many([(build, 'cfgprobe', f'cfg{i}', c) for i, c in enumerate(CONFIGS)])
    n = 150 if tier == 'quick' else 2500
    seeds = [seed] if tier == 'quick' else [seed + 1000 * k for k in range(6)]
    per = {}
    for s in seeds:
        outs = many([(run, [b, str(s), str(n)], 300) for b in bins])
        if all(rc is None for rc, _, _ in outs):
            raise NoVerdict('no configuration comes to an end')
        if any(rc is None for rc, _, _ in outs):
            for c, (rc, out, _) in zip(CONFIGS, outs):
                if rc is None:
                    rep.violation(f'[{c}]', 'does not come to an end, as other configurations do; the last it did was ' + out[-300:])
            return rep.end()
        ref = lines(outs[0][1])
        for c, (rc, out, err) in zip(CONFIGS, outs):
            where = f'[{c}]'
            got = lines(out)
            per[where] = per.get(where, 0) + compare(rep, ref, got, where, rc)
            if rc != outs[0][0]:
                rep.violation(f'{where} exit', f'the program of this configuration ended with {rc}, that of [{CONFIGS[0]}] with {outs[0][0]}: {err[-400:]}')
            # everything which exists without the feature must have been observed
            if rc == 0:
                here = {k.split(' #')[0] for k in got}
                want = {k for k in ref if k.split(' #')[0] in here}
                for k in sorted(want - set(got))[:3]:
                    rep.violation(f'{where}: {k}', 'was not observed here')
            for k, v in got.items():
                if 'differs' in v:
                    rep.violation(f'{where}: {k}', f'the ways to write disagree: {v[:600]}')
        rep.samples += [f'{k} | {v}'[:300] for k, v in list(ref.items())[7:-1:len(ref) // 5]][:4]
    rep.extra = {'observations_per_configuration': per, 'types': len({k.split(' #')[0] for k in ref})}
    return rep.end()


# types whose encoding is defined by the machine
NATIVE = {'NonZ', 'Tuple', 'Gen16'}


def r27(tier, seed):
    rep = Report('R27', tier, seed, 'the types of R21 with explicit byte orders, run natively and in Miri as on a big-endian 64-bit and on a little-endian 32-bit machine; on the big-endian one a type without a byte order must do what the same type declared big-endian does here. Counted: (machine, type, input) with an accepted input, or a sequence of reader operations')
    n = 5 if tier == 'quick' else 60
    feats = 'std,bits,desc'
    hosts = [h for h in HOSTS if not h.startswith('x86')]
    shares = 12
    bin_ = build('cfgprobe', 'cfg0', feats, jobs='8')
    ref = lines(run([bin_, str(seed), str(n)], 100)[1])
    for h in hosts:
        miri_setup(h)
        miri('cfgprobe', feats, h, [seed, 0], NO_ALIAS, prepare=True)
    jobs = [(h, k) for k in range(shares) for h in hosts]
    outs = many([(miri, 'cfgprobe', feats, h, [seed, n, k, shares], NO_ALIAS) for h, k in jobs])
    slow = 0
    for h in hosts:
        got = {}
        for (hh, k), (rc, out, err) in zip(jobs, outs):
            if hh != h:
                continue
            got.update(lines(out))
            if rc is None:
                slow += 1
            elif rc != 0:
                if 'Undefined Behavior' in err:
                    rep.violation(f'{h} share {k}', 'undefined behaviour on this machine:\n' + err[:2500])
                elif 'unsupported operation' in err:
                    raise NoVerdict(err[-2000:])
                else:
                    rep.violation(f'{h} share {k}', f'the program ended with {rc}:\n' + err[-1500:])
        if got.get('Host #') not in (HOSTS[h], None):
            raise NoVerdict(f'{h} is {got["Host #"]}')
        big = HOSTS[h].startswith('big')

        def exempt(k, big=big, small=HOSTS[h].endswith('32')):
            name, rest = k.split(' #', 1)
            if big and name == 'Native':
                return f'Native@big #{rest}'
            if small and name == 'Word':
                return f'Word@32 #{rest}'
            if big and name in NATIVE:
                return '-'
                return None
        c = compare(rep, ref, got, HOSTS[h], 0, exempt)
        rep.extra[HOSTS[h]] = c
        if not slow and not rep.bad:
            for name in {k.split(' #')[0] for k in ref} - {k.split(' #')[0] for k in got}:
                rep.violation(f'{h}: {name}', 'was not observed here')
    rep.samples += [f'{k} | {v}'[:300] for k, v in list(ref.items())[3:-1:len(ref) // 5]][:4]
    rep.extra['shares_out_of_time'] = slow
    return rep.end()


def r19(tier, seed):
    rep = Report('R19', tier, seed, 'elements which own heap memory, counted one by one, in arrays, tuples, vectors, boxes, maps, enums and derived types, with failures and panics at every element and faults of the stream; watched by their own ledger, by AddressSanitizer and LeakSanitizer, and by Miri. Counted: distinct (shape, number of elements held or lost)')
    n = 4000 if tier == 'quick' else 60000
    m = 24 if tier == 'quick' else 220
    host = 'x86_64-unknown-linux-gnu'
    native = build('memprobe', 'mem', 'bits', jobs='8')
    asan = build('memprobe', 'asan', 'bits', nightly=True, target=host, flags='-Zsanitizer=address', jobs='8')
    miri_setup(host)
    shares = 10
    miri('memprobe', '', host, [seed, 0], TREE, prepare=True)
    miri('memprobe', 'bits', host, [seed, 0], NO_ALIAS, prepare=True)
    jobs = []
    for p in (0, 1):
        for k in range(shares):
            leaks = ' -Zmiri-ignore-leaks' if p else ''
            jobs.append((f'Miri panics={p} share {k}', miri, 'memprobe', '', host, [seed, m, k, shares, p], TREE + leaks))
            if k >= 8 or p == 0:
                jobs.append((f'Miri bits panics={p} share {k}', miri, 'memprobe', 'bits', host, [seed + 1, m, k, shares, p], NO_ALIAS + leaks))
        for k in range(shares):
            jobs.append((f'native panics={p} share {k}', run, [native, str(seed + 2), str(n), str(k), str(shares), str(p)], 400))
            jobs.append((f'AddressSanitizer panics={p} share {k}', run, [asan, str(seed + 3), str(n // 4), str(k), str(shares), str(p)], 400, {'ASAN_OPTIONS': f'detect_leaks={1 - p}:halt_on_error=1'}))
    outs = many([j[1:] for j in jobs])
    slow = 0
    totals = {}
    for (name, *_), (rc, out, err) in zip(jobs, outs):
        for l in out.splitlines():
            if l.startswith('WRONG '):
                rep.violation(f'{name}: {l[:300]}', l)
            elif l.startswith('SHAPE '):
                rep.distinct.add(l[6:])
            elif l.startswith('TOTAL '):
                t = [int(x) for x in l.split()[1:]]
                tool = name.split(' panics')[0]
                totals[tool] = [a + b for a, b in zip(totals.get(tool, [0] * 6), t)]
                rep.evaluations += t[0]
        if rc is None:
            slow += 1
        elif rc != 0:
            if 'unsupported operation' in err:
                raise NoVerdict(err[-2000:])
            # LeakSanitizer cannot always look (it needs ptrace): that is no verdict on leaks, not a leak
            if 'LeakSanitizer has encountered a fatal error' in err:
                rep.extra['leak_sanitizer'] = 'could not run here'
                continue
            rep.violation(f'{name}', f'ended with {rc}:\n' + (err[:2500] or out[-500:]))
    rep.extra['totals'] = {k: dict(zip(['runs', 'accepted', 'refused', 'panicked', 'refused_with_elements_read', 'elements'], v)) for k, v in totals.items()}
    rep.extra['shares_out_of_time'] = slow
    rep.samples = sorted(rep.distinct)[::max(1, len(rep.distinct) // 6)]
    return rep.end()


def names_program(slot, dep, edition, rng, share=0):
    """-> (what it prints or None, why not, the names it uses)"""
    import nameprobe
    d = f'{T}/names/{slot}'
    src, chosen = nameprobe.program(dep, rng, share)
    os.makedirs(d + '/src', exist_ok=True)
    toml = f'[package]\nname = "names"\nversion = "0.1.0"\nedition = "{edition}"\n[workspace]\n[dependencies]\n{dep} = {{ package = "deku", path = "/repo" }}\n[profile.dev]\ndebug = false\n'
    for f, text in (('Cargo.toml', toml), ('src/main.rs', src)):
        if not os.path.exists(f'{d}/{f}') or open(f'{d}/{f}').read() != text:
            open(f'{d}/{f}', 'w').write(text)
    if not os.path.exists(d + '/Cargo.lock'):
        shutil.copy(V + '/nameprobe.lock', d + '/Cargo.lock')
    fresh(d + '/target')
    rc, out, err = run(['cargo', 'build', '--offline', '-q', '-j', '2', '--target-dir', d + '/target', '-p', 'deku'], 300, None, d)
    if rc != 0:
        os.remove(d + '/target/stamp')
        raise NoVerdict(f'deku does not build:\n{err[-2000:]}')
    rc, out, err = run(['cargo', 'build', '--offline', '-q', '-j', '2', '--target-dir', d + '/target'], 300, None, d)
    if rc is None:
        raise NoVerdict('a program takes too long to build')
    if rc != 0:
        i = err.find('error')
        return None, err[max(i, 0):][:2500], chosen
    rc, out, err = run([d + '/target/debug/names'], 120)
    if rc is None:
        raise NoVerdict('a program does not come to an end')
    return out, f'ended with {rc}: {err[-600:]}', chosen


def r28(tier, seed):
    import nameprobe
    rep = Report('R28', tier, seed, 'definitions with every kind of attribute in programs which differ in their names alone: names out of the source of the generated code for types, type parameters, lifetimes, members, variants, arguments, constants and functions, methods with the names of those of deku, deku itself under another name, all editions of the language; what every input shows is compared with what the program with inoffensive names shows. Counted: (program, definition, input) with an accepted input')
    ref, why, _ = names_program(0, 'deku', '2021', None)
    if ref is None:
        rep.violation('inoffensive names', 'a definition does not compile:\n' + why)
        return rep.end()
    if 'ended with 0:' not in why:
        rep.violation('inoffensive names', 'the program ' + why)
        return rep.end()
    ref = ref.splitlines()
    n = 7 if tier == 'quick' else 48
    kinds = [('wire', '2021'), ('deku', '2021'), ('wire', '2018'), ('deku', '2024'), ('deku', '2018'), ('wire', '2024'), ('format', '2021')]
    batch = 7
    progs = 0
    for b in range(0, n, batch):
        if DEADLINE - time.time() < 150:
            break
        jobs = [(k, *kinds[k % len(kinds)], nameprobe.rng_of(seed * 1000 + k)) for k in range(b, min(n, b + batch))]
        for (k, dep, ed, _), (out, why, chosen) in zip(jobs, many([(names_program, 1 + (k - b), dep, ed, rng, k % nameprobe.SHARES) for k, dep, ed, rng in jobs], 7)):
            where = f'program {k} (deku as {dep}, edition {ed})'
            progs += 1
            if out is None:
                rep.violation(where, f'does not compile under its names {json.dumps(dict(chosen))[:3000]}:\n{why}')
                continue
            got = out.splitlines()
            rep.evaluations += len(got)
            for a, g in zip(ref, got):
                if a != g:
                    i = int(a.split('.')[0])
                    rep.violation(f'{where}: definition {i}', f'with the names {chosen[i][1]}\n    here: {g[:400]}\n  with inoffensive names: {a[:400]}')
                    break
                if '[' in g or 'Some(' in g:
                    rep.distinct.add((k, g.split(':')[0]))
            if len(got) != len(ref):
                rep.violation(where, f'{len(got)} observations instead of {len(ref)}; it {why}')
            if k < 3:
                rep.samples.append(f'{where}: definition 4 with {chosen[4][1]}')
    rep.samples += [l[:200] for l in ref[5::len(ref) // 4]][:4]
    rep.extra = {'programs': progs, 'definitions': len(nameprobe.definitions(0)), 'names_swept': len(nameprobe.bound()), 'observations_per_program': len(ref)}
    return rep.end()


def setup():
    import nameprobe
    many([(names_program, 0, 'deku', '2021', None)] + [(names_program, 1 + k, d, e, nameprobe.rng_of(1000 + k), k) for k, (d, e) in enumerate([('wire', '2021'), ('deku', '2021'), ('wire', '2018'), ('deku', '2024'), ('deku', '2018'), ('wire', '2024'), ('format', '2021')])])
    many([(build, 'cfgprobe', f'cfg{i}', c) for i, c in enumerate(CONFIGS)])
    host = 'x86_64-unknown-linux-gnu'
    build('memprobe', 'mem', 'bits', jobs='8')
    build('memprobe', 'asan', 'bits', nightly=True, target=host, flags='-Zsanitizer=address', jobs='8')
    for h in HOSTS:
        miri_setup(h)
    for h in HOSTS:
        if h != host:
            miri('cfgprobe', 'std,bits,desc', h, [1, 0], NO_ALIAS, prepare=True)
    miri('memprobe', '', host, [1, 0], TREE, prepare=True)
    miri('memprobe', 'bits', host, [1, 0], NO_ALIAS, prepare=True)
    return 0


def main():
    try:
        if sys.argv[1] == 'setup':
            return setup()
        return {'R19': r19, 'R21': r21, 'R27': r27, 'R28': r28}[sys.argv[1]](sys.argv[2], int(sys.argv[3]))
    except Refused as e:
        os.makedirs(V + '/replays', exist_ok=True)
        path = f'{V}/replays/{sys.argv[1]}.txt'
        open(path, 'w').write(f'{e}\n')
        print(f'{e}\nVIOLATION property={sys.argv[1]} replay={path}')
        return 1
    except NoVerdict as e:
        print(f'no verdict: {e}')
        return 2


sys.exit(main())
