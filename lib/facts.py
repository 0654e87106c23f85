"""Builds the analysed program's facts from the current source tree.

The source tree (/repo/src) is mirrored into a scratch directory, a few lines are
added so that the 2020-nightly source type-checks under the installed nightly
(line numbers are kept), and a rustc driver dumps the resolved program
(monomorphic MIR, types, vtables, statics) as JSON.  Nothing of the repository is run.
"""
import os, re, sys, json, hashlib, shutil, subprocess, tempfile, fcntl

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('RXV_REPO', '/repo')
CACHE = os.environ.get('RXV_CACHE', os.path.join(VERIF, '.cache'))
VENDOR = '/opt/vp/vendor'
LOCK = '/opt/vp/Cargo.lock.rexpat'

OLD_FEATURES = {'const_raw_ptr_to_usize_cast', 'main', 'const_in_array_repeat_expressions',
                'ptr_wrapping_offset_from', 'optin_builtin_traits', 'try_reserve',
                'alloc_layout_extra', 'const_fn', 'const_transmute', 'const_if_match', 'label_break_value',
                'const_panic'}
PRE = '#![feature(prelude_import,auto_traits,negative_impls,try_reserve_kind)] '
COMPAT = '''
pub mod __compat {
 pub use ::std::prelude::v1::*;
 pub trait PtrC<T> { fn wrapping_offset_from(self, o:*const T)->isize; }
 impl<T> PtrC<T> for *const T { fn wrapping_offset_from(self,o:*const T)->isize { (self as isize).wrapping_sub(o as isize)/(::std::mem::size_of::<T>() as isize)} }
 impl<T> PtrC<T> for *mut T { fn wrapping_offset_from(self,o:*const T)->isize { (self as isize).wrapping_sub(o as isize)/(::std::mem::size_of::<T>() as isize)} }
 pub trait TryC { const CapacityOverflow: Self; }
 impl TryC for ::std::collections::TryReserveError { const CapacityOverflow: Self = unsafe{::std::mem::transmute([0u8; ::std::mem::size_of::<Self>()])}; }
}
#[prelude_import] #[allow(unused_imports)] use crate::__compat::*;
'''


class FactsError(Exception):
    pass


def nightly_env():
    env = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTC', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_TARGET_DIR',
              'CARGO_BUILD_TARGET', 'CARGO_ENCODED_RUSTFLAGS', 'MIRDUMP_OUT', 'MIRDUMP_CRATE'):
        env.pop(k, None)
    env.setdefault('HOME', '/root')
    env['PATH'] = '/root/.cargo/bin:' + env.get('PATH', '/usr/bin:/bin')
    env['RUSTUP_TOOLCHAIN'] = 'nightly'
    env['CARGO_NET_OFFLINE'] = 'true'
    env['CARGO_TERM_COLOR'] = 'never'
    env['CARGO_INCREMENTAL'] = '0'
    return env


def run(cmd, env, cwd=None, timeout=600):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                       timeout=timeout, text=True, errors='replace')
    if p.returncode:
        raise FactsError('command failed: %s\n%s' % (' '.join(cmd), p.stdout[-6000:]))
    return p.stdout


def filehash(*paths):
    h = hashlib.sha256()
    for p in paths:
        if os.path.isdir(p):
            for d, ds, fs in os.walk(p):
                ds.sort()
                for f in sorted(fs):
                    q = os.path.join(d, f)
                    h.update(os.path.relpath(q, p).encode())
                    h.update(open(q, 'rb').read())
        else:
            h.update(open(p, 'rb').read())
    return h.hexdigest()[:20]


def sysroot(env):
    return run(['rustc', '--print', 'sysroot'], env).strip()


def driver():
    """Path of the built driver (built on demand)."""
    src = os.path.join(VERIF, 'driver', 'mirdump.rs')
    os.makedirs(CACHE, exist_ok=True)
    exe = os.path.join(CACHE, 'mirdump-' + filehash(src))
    if not os.path.exists(exe):
        env = nightly_env()
        for f in os.listdir(CACHE):
            if f.startswith('target-'): shutil.rmtree(os.path.join(CACHE, f), ignore_errors=True)
            if f.startswith('mirdump-'): os.unlink(os.path.join(CACHE, f))
        tmp = exe + '.%d.tmp' % os.getpid()
        run(['rustc', '--edition', '2021', '-O', src, '-o', tmp], env)
        os.rename(tmp, exe)
    return exe


def deps_target():
    """A cargo target directory with the dependencies checked (built on demand)."""
    return os.path.join(CACHE, 'target-' + os.path.basename(driver()))


def shim_crate_root(text, compat):
    out = []
    def fix(m):
        feats = [f.strip() for f in m.group(1).replace('\n', ' ').split(',')]
        keep = [f for f in feats if f and f not in OLD_FEATURES]
        nl = '\n' * m.group(0).count('\n')
        return ('#![feature(%s)]' % ', '.join(keep) if keep else '') + nl
    text = re.sub(r'#!\[feature\(([^)]*)\)\]', fix, text)
    return PRE + text + COMPAT if compat else PRE + text


def mirror(dst):
    src = os.path.join(REPO, 'src')
    shutil.copytree(src, os.path.join(dst, 'src'), ignore=shutil.ignore_patterns('tests'))
    if os.path.isdir(os.path.join(REPO, 'examples')):
        shutil.copytree(os.path.join(REPO, 'examples'), os.path.join(dst, 'examples'))
    for root in ('src/lib.rs', 'src/xmlwf/xmlwf.rs', 'examples/elements.rs', 'examples/outline.rs'):
        p = os.path.join(dst, root)
        if os.path.exists(p):
            t = open(p, encoding='utf-8', errors='surrogateescape').read()
            t = shim_crate_root(t, True)
            t = re.sub(r'(?m)^#\[main\]', '', t)
            open(p, 'w', encoding='utf-8', errors='surrogateescape').write(t)
    ct = open(os.path.join(REPO, 'Cargo.toml')).read()
    ct = re.sub(r'(?m)^wchar\s*=.*$', '', ct)
    ct = re.sub(r'(?m)^(unicode_wchar_t\s*=).*$', r'\1 []', ct)
    ct = re.sub(r'(?m)^crate-type\s*=.*$', 'crate-type = ["rlib"]', ct)
    # drop bins/benches of src/tests (not analysed)
    ct = re.sub(r'\[\[(bin|bench)\]\]\n(?:(?!\[).*\n)*?path\s*=\s*"src/tests/[^"]*"\n(?:(?!\[).*\n)*', '', ct)
    ct = re.sub(r'\[\[(bin|bench)\]\]\n(?:(?!\[).*\n)*?(?=\[|\Z)', lambda m: '' if 'src/tests' in m.group(0) else m.group(0), ct)
    open(os.path.join(dst, 'Cargo.toml'), 'w').write(ct + '\n[workspace]\n')
    shutil.copy(LOCK, os.path.join(dst, 'Cargo.lock'))
    os.makedirs(os.path.join(dst, '.cargo'))
    open(os.path.join(dst, '.cargo', 'config.toml'), 'w').write(
        '[source.crates-io]\nreplace-with = "vendored"\n[source.vendored]\ndirectory = "%s"\n' % VENDOR)


def dump(kind='lib', features=()):
    """kind: 'lib' or 'xmlwf'.  Returns the path of the JSON facts."""
    drv = driver()
    key = hashlib.sha256((filehash(os.path.join(REPO, 'src'), os.path.join(REPO, 'Cargo.toml'),
                                   os.path.join(HERE, 'facts.py')) + drv +
                          kind + ','.join(sorted(features))).encode()).hexdigest()[:20]
    out = os.path.join(CACHE, 'facts-%s-%s.json' % (kind, key))
    if os.path.exists(out):
        return out
    lock = open(os.path.join(CACHE, 'lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        if os.path.exists(out):
            return out
        env = nightly_env()
        sr = sysroot(env)
        env['LD_LIBRARY_PATH'] = sr + '/lib'
        env['RUSTC_WRAPPER'] = drv
        tgt = deps_target()
        env['CARGO_TARGET_DIR'] = tgt
        crate = {'lib': 'rexpat', 'xmlwf': 'xmlwf'}[kind]
        env['MIRDUMP_CRATE'] = crate
        env['MIRDUMP_OUT'] = out
        work = os.path.join(CACHE, 'mirror')
        if os.path.exists(work):
            shutil.rmtree(work)
        os.makedirs(work)
        mirror(work)
        # cargo must not consider the workspace crate fresh
        fp = os.path.join(tgt, 'debug', '.fingerprint')
        if os.path.isdir(fp):
            for f in os.listdir(fp):
                if f.startswith('rexpat-'):
                    shutil.rmtree(os.path.join(fp, f))
        cmd = ['cargo', 'check', '--offline'] + (['--lib'] if kind == 'lib' else ['--bin', kind])
        if features:
            cmd += ['--features', ','.join(features)]
        log = run(cmd, env, cwd=work)
        shutil.rmtree(work, ignore_errors=True)
        if not os.path.exists(out):
            raise FactsError('the driver produced no facts\n' + log[-3000:])
        # keep the cache small
        fs = sorted((os.path.join(CACHE, f) for f in os.listdir(CACHE) if f.startswith('facts-')),
                    key=os.path.getmtime)
        for f in fs[:-12]:
            os.unlink(f)
        return out
    finally:
        lock.close()


def load(kind='lib', features=()):
    p = dump(kind, features)
    with open(p) as f:
        return json.load(f)


if __name__ == '__main__':
    print(dump(sys.argv[1] if len(sys.argv) > 1 else 'lib', tuple(sys.argv[2:])))
