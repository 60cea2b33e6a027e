"""Simulated git, file system and archive metadata for version lookup (C19)."""
import errno
import importlib.util
import io
import os
import shutil
import subprocess
import sys
import tempfile

from .core import HarnessError, Violation

CAP = 65536         # capacity of a simulated pipe


class Stuck(BaseException):
    """A simulated child and its parent wait for each other for ever."""


OSERRORS = {'ENOENT': FileNotFoundError, 'EACCES': PermissionError, 'EAGAIN': BlockingIOError, 'ENOMEM': OSError,
            'ENOEXEC': OSError, 'EMFILE': OSError, 'ENOTDIR': NotADirectoryError}


def oserror(name, what):
    return OSERRORS[name](getattr(errno, name), f'simulated {name}', what)


# ---------------------------------------------------------------- fake git

class Git:
    """Answers of git for one simulated repository; plan['git']."""

    def __init__(self, g, root, cwd_root):
        self.g, self.root, self.elsewhere = g, root, cwd_root
        self.children = []
        self.log = []

    def inside(self, cwd):
        if cwd is None:
            return False
        a, b = os.path.realpath(os.fsdecode(cwd)), os.path.realpath(self.root)
        return a == b or a.startswith(b + os.sep)

    def answer(self, argv, cwd):
        """(returncode, stdout, stderr) of a git command."""
        g = self.g
        argv = [os.fsdecode(a) for a in argv]
        if os.path.basename(argv[0]) not in ('git', 'git.exe'):
            raise HarnessError(f'unexpected program {argv!r}')
        a = argv[1:]
        while len(a) > 1 and a[0] in ('-C', '-c'):
            if a[0] == '-C':
                cwd = a[1]
            a = a[2:]
        here = self.inside(cwd)
        if not a:
            return 1, b'', b'usage: git\n'
        cmd, opt = a[0], [o for o in a[1:] if o != '--']
        if g['repo'] == 'none' or not here and g['outside'] == 'none':
            return 128, b'', b'fatal: not a git repository (or any of the parent directories): .git\n'
        if g['repo'] == 'dubious':
            return 128, b'', b'fatal: detected dubious ownership in repository\n'
        if cmd == 'rev-parse':
            if '--show-toplevel' in opt:
                return 0, (self.toplevel() if here else os.fsencode(self.elsewhere)) + b'\n', b''
            if 'HEAD' in opt:
                return (0, ('0123abc' + g['hash'][1:] if not here else g['hash']).encode() + b'\n', b'') if g['commits'] \
                    else (128, b'', b'fatal: ambiguous argument HEAD\n')
            raise HarnessError(f'unexpected git command {argv!r}')
        if cmd == 'describe':
            if not here:
                return 0, b'v77.7-7-g7777777\n', b''
            return self.describe(opt)
        if cmd in ('diff', 'diff-index', 'diff-files'):
            d = g['dirty'] if here else 'unstaged'
            rc = {'clean': 0, 'staged': 1 if {'--cached', '--staged', 'HEAD'} & set(opt) else 0, 'unstaged': 1, 'untracked': 0,
                  'fails': 128, 'usage': 129, 'killed': -9}[d]
            if '--cached' in opt or '--staged' in opt:
                rc = 0 if d == 'unstaged' else rc
            if '--quiet' in opt or '--exit-code' in opt:
                return rc, b'', b'' if rc in (0, 1) else b'fatal: bad\n'
            return (0 if rc == 1 else rc), (b'diff --git a/x b/x\n' * 3 if rc == 1 else b''), b''
        if cmd == 'status':
            d = g['dirty'] if here else 'unstaged'
            out = {'clean': b'', 'staged': b'M  x\n', 'unstaged': b' M x\n', 'untracked': b'?? x\n'}.get(d)
            return (128, b'', b'fatal\n') if out is None else (0, out, b'')
        raise HarnessError(f'unexpected git command {argv!r}')

    def toplevel(self):
        kind = self.g['toplevel']
        if kind in ('same', 'foreign-parent', 'foreign-sibling', 'gone', 'symlink', 'foreign-child', 'empty'):
            p = {'same': self.root, 'symlink': os.path.join(os.path.dirname(self.root), 'link'),
                 'foreign-parent': os.path.dirname(self.root), 'foreign-child': os.path.join(self.root, 'qsymm'),
                 'foreign-sibling': os.path.join(os.path.dirname(self.root), 'other'),
                 'gone': os.path.join(os.path.dirname(self.root), 'gone'), 'empty': ''}[kind]
            return os.fsencode(p)
        raise HarnessError(kind)

    def describe(self, opt):
        g = self.g
        if g['describe'] == 'old-git' and '--first-parent' in opt:
            return 129, b'', b'error: unknown option `first-parent\'\n'
        if g['describe'] == 'fails':
            return 128, b'', b'fatal: bad object HEAD\n' + b'x' * g['noise']
        if not g['commits']:
            return 128, b'', b'fatal: Not a valid object name HEAD\n'
        best = nearest(g, '--first-parent' in opt, '--tags' in opt or '--all' in opt)
        err = b'warning: noise\n' * (g['noise'] // 15)
        if best is None:
            if '--always' in opt:
                return 0, g['hash'].encode() + b'\n', err
            return 128, b'', b'fatal: No names found, cannot describe anything.\n' + err
        name, dist = best
        out = name
        if dist or '--long' in opt:
            out += f'-{dist}-g{g["hash"]}'
        if any(o.startswith('--dirty') for o in opt) and g['dirty'] in ('staged', 'unstaged'):
            out += '-dirty'
        return 0, os.fsencode(out) + b'\n', err


def nearest(g, first_parent, light):
    """The tag git describe finds: fewest commits away, annotated only unless light."""
    best = None
    for t in g['tags']:
        if t['side'] and first_parent or t['light'] and not light:
            continue
        d = t['dist_fp'] if first_parent else t['dist']
        if best is None or d < best[1]:
            best = (t['name'], d)
    return best


class Pipe(io.BytesIO):
    def __init__(self, child, name, data):
        super().__init__(data)
        self.child, self.name_ = child, name

    def read(self, *a):
        r = super().read(*a)
        self.child.check_other(self)
        return r

    def readlines(self, *a):
        r = super().readlines(*a)
        self.child.check_other(self)
        return r

    def left(self):
        return len(self.getvalue()) - self.tell() if not self.closed else 0


class Child:
    """Stands in for subprocess.Popen."""
    sim = None      # the active simulation

    def __init__(self, args, bufsize=-1, executable=None, stdin=None, stdout=None, stderr=None, preexec_fn=None, close_fds=True,
                 shell=False, cwd=None, env=None, universal_newlines=None, text=None, encoding=None, errors=None, **kw):
        sim = Child.sim
        n = sim.n
        sim.n += 1
        argv = args if not isinstance(args, (str, bytes)) else os.fsdecode(args).split()
        fail = sim.spawn_fail.get(str(n)) or sim.spawn_fail.get('all')
        sim.git.log.append((list(map(os.fsdecode, argv)), cwd and os.fsdecode(cwd), fail))
        self.reaped = False
        self.stdin = self.stdout = self.stderr = None
        self.returncode = None
        self.pid = 1000 + n
        self.args = args
        if fail:
            sim.fired.append(f'spawn:{fail}')
            raise oserror(fail, str(argv[0]))
        rc, out, err = sim.git.answer(argv, cwd)
        self.rc = rc
        self.big = {}
        self.text = bool(text or universal_newlines or encoding or errors)
        self.enc = (encoding or 'utf-8', errors or 'strict')
        if stderr == subprocess.STDOUT:
            out, err = out + err, b''
        def mk(name, spec, data):
            if spec == subprocess.PIPE:
                p = Pipe(self, name, data)
                return io.TextIOWrapper(p, *self.enc) if self.text else p
            return None
        self.out_b, self.err_b = out, err
        self.stdout, self.stderr = mk('stdout', stdout, out), mk('stderr', stderr, err)
        if len(out) > CAP or len(err) > CAP:
            sim.fired.append('large-output')
        sim.git.children.append(self)

    def check_other(self, reading):
        """A child blocked on a full pipe never closes the one being read."""
        for p in (self.stdout, self.stderr):
            b = getattr(p, 'buffer', p)
            if b is not None and b is not reading and b.left() > CAP:
                raise Stuck('pipe')

    def _end(self):
        for p in (self.stdout, self.stderr):
            b = getattr(p, 'buffer', p)
            if b is not None and b.left() > CAP:
                raise Stuck('full pipe')
        self.reaped = True
        self.returncode = self.rc

    def poll(self):
        b = [getattr(p, 'buffer', p) for p in (self.stdout, self.stderr) if p is not None]
        if all(x.left() <= CAP for x in b):
            self._end()
        else:
            Child.sim.polls += 1
            if Child.sim.polls > 10000:
                raise Stuck('polling')
        return self.returncode

    def wait(self, timeout=None):
        self._end()
        return self.returncode

    def communicate(self, input=None, timeout=None):
        r = []
        for p in (self.stdout, self.stderr):
            if p is None:
                r.append(None)
            else:
                b = getattr(p, 'buffer', p)
                data = io.BytesIO.read(b)
                b.close()
                if self.text:
                    data = data.decode(*self.enc)
                r.append(data)
        self._end()
        return tuple(r)

    def kill(self):
        self.rc = -9

    terminate = kill

    def send_signal(self, s):
        self.rc = -s

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for p in (self.stdout, self.stderr):
            if p is not None:
                getattr(p, 'buffer', p).close()
        self.wait()


# ------------------------------------------------------------ simulation

class Sim:
    def __init__(self, plan):
        self.plan = plan
        self.n = 0
        self.polls = 0
        self.fired = []
        self.spawn_fail = plan['spawn_fail']


def generate(rng):
    git = dict(repo=rng.choice(['ok'] * 8 + ['none', 'dubious']), outside=rng.choice(['none', 'other']),
               toplevel=rng.choice(['same'] * 6 + ['symlink', 'symlink', 'foreign-parent', 'foreign-sibling', 'foreign-child', 'gone', 'empty']),
               describe=rng.choice(['ok'] * 6 + ['old-git', 'old-git', 'fails']), commits=rng.random() < .93,
               dirty=rng.choice(['clean', 'clean', 'clean', 'unstaged', 'unstaged', 'staged', 'untracked', 'fails', 'usage', 'killed']),
               noise=rng.choice([0, 0, 0, 100, 70000, 300000]),
               hash=''.join(rng.choice('0123456789abcdef') for _ in range(rng.choice([7, 8, 10, 40]))), tags=[])
    for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
        d = rng.choice([0, 0, 1, 2, 5, 10, 10, 100, 100, 1207])
        side = rng.random() < .3
        git['tags'].append(dict(name=tag(rng), light=rng.random() < .2, side=side, dist=d + (1 if side else 0),
                                dist_fp=max(0, d - rng.choice([0, 0, 1, 3])) if d else 0))
    ds = [t['dist'] for t in git['tags']]
    fs = [t['dist_fp'] for t in git['tags']]
    for t in git['tags']:       # no ties
        if ds.count(t['dist']) > 1 or fs.count(t['dist_fp']) > 1:
            git['tags'] = git['tags'][:1]
            break
    sf = {}
    r = rng.random()
    if r < .1:
        sf['all'] = rng.choice(sorted(OSERRORS))
    elif r < .3:
        sf[str(rng.randrange(4))] = rng.choice(sorted(OSERRORS))
    arch = None
    if rng.random() < .4:
        refs = [rng.choice(['HEAD -> master', 'HEAD', 'origin/master', 'HEAD -> tag', 'grafted'])]
        for _ in range(rng.choice([0, 1, 1, 2])):
            refs.append('tag: ' + tag(rng))
        refs += rng.choice([[], ['master'], ['origin/stable, master']])
        rng.shuffle(refs)
        arch = dict(refnames=', '.join(refs) if rng.random() < .8 else '', git_hash=git['hash'][:10])
        if rng.random() < .6:
            git['repo'] = 'none'
        if rng.random() < .1:
            arch = {k: arch[k] for k in arch if rng.random() < .5}
    static = tag(rng).lstrip('v') if rng.random() < .12 else None
    write = None
    if rng.random() < .6:
        write = dict(before=rng.choice(['missing', 'file', 'hardlink', 'readonly', 'symlink', 'original', 'long']),
                     how=rng.choice(['write', 'build_py', 'sdist']),
                     remove_fails=rng.choice([None, None, None, 'EACCES', 'EPERM']))
    return dict(git=git, spawn_fail=sf, archive=arch, static=static, write=write,
                root=rng.choice(['dist', 'dist', 'dist', 'di st', 'd\u00efst', 'd\udce9st', 'v', 'dist-1-g2']),
                cwd=rng.choice(['root', 'other', 'package']), env={})


def tag(rng):
    base = '.'.join(str(rng.choice([0, 1, 2, 3, 10])) for _ in range(rng.choice([2, 3])))
    suf = rng.choice([''] * 6 + ['rc1', 'a0', '-dev', '.dev', '-rc1', '-beta-2', '-dev', '.post1', "'x", '-\u03b2', '\udce9', 'v', '-v'])
    return rng.choice(['v', 'v', 'v', 'v', '']) + base + suf


def pep440(release, dev, labels):
    s = release
    if dev:
        s += dev if release[-4:] in ('-dev', '.dev') else '.dev' + dev
    if labels:
        s += '+' + '.'.join(labels)
    return s


def expected(plan):
    """Set of versions that the simulated world determines."""
    g, sf = plan['git'], plan['spawn_fail']
    if plan['static'] is not None:
        return {plan['static']}
    fail = lambda k: sf.get('all') or sf.get(str(k))
    v = None
    ok = not fail(0) and g['repo'] == 'ok' and g['toplevel'] in ('same', 'symlink')
    if ok:
        k, best = 1, None
        for fp in (True, False):
            if fail(k):
                best = None
                break
            k += 1
            if g['describe'] == 'fails' or g['describe'] == 'old-git' and fp or not g['commits']:
                best = None
            else:
                best = nearest(g, fp, False)
            if best is not None:
                break
        if best is not None:
            name, dist = best
            rel = name[1:] if name.startswith('v') else name
            labels = ['g' + g['hash']] if dist else []
            if fail(k):
                labels.append('confused')
            elif g['dirty'] == 'unstaged':
                labels.append('dirty')
            v = pep440(rel, str(dist) if dist else None, labels)
    if v is None and plan['archive'] is not None and len(plan['archive']) == 2:
        a = plan['archive']
        tags = sorted(r.strip()[6:] for r in a['refnames'].split(',') if r.strip().startswith('tag: v'))
        v = tags[0] if tags else 'unknown+g' + a['git_hash']
    return v if v is not None else 'unknown'


def load(path, name):
    spec = importlib.util.spec_from_file_location(name, path)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def run(plan, ctx):
    import qsymm
    src = os.path.dirname(os.path.realpath(qsymm.__file__))
    base = tempfile.mkdtemp(prefix='dst-version-')
    cwd0 = os.getcwd()
    try:
        _run(plan, ctx, src, base)
    except Violation as v:
        v.detail = v.detail.replace(base, '<scratch>')
        raise
    finally:
        os.chdir(cwd0)
        shutil.rmtree(base)


def same_version(a, b):
    """Equal, where undecodable bytes of a tag may be shown in any way."""
    if a == b:
        return True
    if any('\ud800' <= c <= '\udfff' for c in b):
        import re
        pat = ''.join('.{1,8}?' if '\ud800' <= c <= '\udfff' else re.escape(c) for c in b)
        return re.fullmatch(pat, a) is not None
    return False


def _run(plan, ctx, src, base):
    root = os.path.join(base, plan['root'])
    pkg = os.path.join(root, 'qsymm')
    os.makedirs(pkg)
    os.makedirs(os.path.join(base, 'other'))
    os.symlink(root, os.path.join(base, 'link'))
    shutil.copy(os.path.join(src, '_version.py'), pkg)
    static = os.path.join(pkg, '_static_version.py')
    shutil.copy(os.path.join(src, '_static_version.py'), static)
    with open(static) as f:
        original = f.read()
    if plan['static'] is not None:
        with open(static, 'w', encoding='utf-8', errors='surrogateescape') as f:
            f.write('# This file has been created by setup.py.\nversion = ' + ascii(plan['static']) + '\n')
    elif plan['archive'] is not None:
        text = [ln for ln in original.splitlines() if not ln.startswith(('refnames', 'git_hash'))]
        text += [f'{k} = {ascii(v)}' for k, v in sorted(plan['archive'].items())]
        with open(static, 'w') as f:
            f.write('\n'.join(text) + '\n')
    os.chdir({'root': root, 'other': os.path.join(base, 'other'), 'package': pkg}[plan['cwd']])
    sim = Sim(plan)
    sim.git = Git(plan['git'], root, os.path.join(base, 'other'))
    real_popen = subprocess.Popen
    Child.sim = sim
    subprocess.Popen = Child
    env0, cwd = dict(os.environ), os.getcwd()
    ctx.have_result = True
    try:
        try:
            m = load(os.path.join(pkg, '_version.py'), 'qsymm_sim_version')
        except Stuck as ex:
            raise Violation('hangs', f'{ex}; {sim.git.log}')
        except HarnessError:
            raise
        except Exception as ex:
            raise Violation('import-failed', f'{type(ex).__name__}: {ex}; git calls {sim.git.log}')
        got = m.__version__
        for f in sim.fired:
            ctx.fault(f)
        if plan['git']['repo'] != 'ok':
            ctx.fault('git:' + plan['git']['repo'])
        for k in ('toplevel', 'describe'):
            if plan['git'][k] not in ('same', 'ok'):
                ctx.fault('git:' + plan['git'][k])
        want = expected(plan)
        if isinstance(want, set):
            want = want.pop()
        ctx.check(isinstance(got, str), 'not-a-string', repr(got))
        ctx.check(same_version(got, want), 'wrong-version', lambda: f'{got!a} instead of {want!a}; git calls {sim.git.log!a}')
        for c in sim.git.children:
            ctx.check(c.reaped, 'child-not-reaped', lambda: f'{c.args!a}')
            for p in (c.stdout, c.stderr):
                b = getattr(p, 'buffer', p)
                ctx.check(b is None or b.closed, 'pipe-left-open', lambda: f'{c.args!a}')
        ctx.check(os.getcwd() == cwd and dict(os.environ) == env0, 'process-state', 'working directory or environment changed')
        with open(static, 'rb') as f:
            ctx.check(f.read().startswith(b'#'), 'package-changed', 'static version file')
        ctx.nontrivial = True
        ctx.event('version', ascii(got), [c[0] for c in sim.git.log])
        ctx.sig('version', plan['git']['repo'], plan['git']['toplevel'], plan['git']['describe'], plan['git']['dirty'],
                [(t['light'], t['side'], t['dist'] > 0) for t in plan['git']['tags']], sorted(plan['spawn_fail'].items()),
                plan['static'] is not None, plan['archive'] is not None, got == 'unknown', plan['root'], plan['write'] and sorted(plan['write'].items(), key=str))
        # a second look gives the same
        sim.n = 0
        try:
            again = m.get_version()
        except Stuck as ex:
            raise Violation('hangs', f'second lookup; {sim.git.log}')
        ctx.check(again == got, 'not-repeatable', lambda: f'{got!a} then {again!a}')
        if plan['write']:
            write(plan['write'], ctx, m, base, got, original)
    finally:
        subprocess.Popen = real_popen
        Child.sim = None


def write(w, ctx, m, base, version, original):
    """Writing the static version of a source or binary distribution."""
    out = os.path.join(base, 'build')
    d = os.path.join(out, 'qsymm')
    os.makedirs(d)
    f = os.path.join(d, '_static_version.py')
    other = os.path.join(base, 'elsewhere.py')
    with open(other, 'w') as h:
        h.write(original)
    if w['before'] in ('file', 'readonly'):
        with open(f, 'w') as h:
            h.write("version = '9.9.9'\n")
        if w['before'] == 'readonly':
            os.chmod(f, 0o444)
    elif w['before'] == 'long':
        with open(f, 'w') as h:
            h.write("version = '9.9.9'\n" + 'version = "8"\n' * 500)
    elif w['before'] == 'original':
        with open(f, 'w') as h:
            h.write(original)
    elif w['before'] == 'hardlink':
        os.link(other, f)
    elif w['before'] == 'symlink':
        os.symlink(other, f)
    real_remove, real_unlink = os.remove, os.unlink
    fails = w['remove_fails']
    if fails and w['before'] in ('hardlink', 'symlink'):
        fails = None
    if fails:
        def no(path, *a, **k):
            raise PermissionError(getattr(errno, fails), 'simulated', path)
        os.remove = os.unlink = no
        ctx.fault('remove:' + fails)
    order = []
    try:
        if w['how'] == 'write' and hasattr(m, '_write_version'):
            m._write_version(f)
        elif w['how'] == 'build_py':
            cls = m.cmdclass['build_py']
            orig = cls.__mro__[1].run
            cls.__mro__[1].run = lambda self: order.append('copied')
            try:
                o = object.__new__(cls)
                o.__dict__.update(build_lib=out)
                o.run()
            finally:
                cls.__mro__[1].run = orig
            ctx.check(order == ['copied'], 'wrong-build', 'the build step itself was not performed once')
        else:
            cls = m.cmdclass['sdist']
            orig = cls.__mro__[1].make_release_tree
            cls.__mro__[1].make_release_tree = lambda self, b, fs: order.append((b, fs))
            try:
                o = object.__new__(cls)
                o.make_release_tree(out, ['x'])
            finally:
                cls.__mro__[1].make_release_tree = orig
            ctx.check(order == [(out, ['x'])], 'wrong-build', 'the sdist step itself was not performed once')
    except Exception as ex:
        raise Violation('write-failed', f'{w}: {type(ex).__name__}: {ex}')
    finally:
        os.remove, os.unlink = real_remove, real_unlink
    ns = {}
    try:
        with open(f, 'rb') as h:
            exec(h.read(), {}, ns)
    except Exception as ex:
        raise Violation('bad-static-file', f'{w} {version!a}: {type(ex).__name__}: {ex}')
    ctx.check(ns.get('version') == version, 'wrong-static-version', lambda: f'{w}: {ns.get("version")!a} instead of {version!a}')
    with open(other) as h:
        ctx.check(h.read() == original, 'linked-file-changed', f'{w}')
    got = m.get_version(os.path.relpath(f, m.package_root))
    ctx.check(got == version, 'static-file-ignored', lambda: f'{w}: {got!a} instead of {version!a}')
    ctx.sig(w['how'])


def shrink(plan):
    if plan['write']:
        yield {**plan, 'write': None}
    if plan['archive']:
        yield {**plan, 'archive': None}
    if plan['root'] != 'dist':
        yield {**plan, 'root': 'dist'}
    if plan['spawn_fail']:
        yield {**plan, 'spawn_fail': {}}
    g = plan['git']
    for k, v in (('noise', 0), ('tags', g['tags'][:1]), ('tags', []), ('dirty', 'clean'), ('describe', 'ok'), ('toplevel', 'same'),
                 ('hash', 'abcdef0')):
        if g[k] != v:
            yield {**plan, 'git': {**g, k: v}}
