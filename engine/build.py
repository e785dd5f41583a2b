"""Builds the harness from /repo's current working tree: LLVM IR for the symbolic
executor and a native shared object of exactly the same code for replays."""
import fcntl
import glob
import hashlib
import os
import subprocess

REPO = '/repo'
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TARGET = os.path.join(VERIF, 'cache', 'target')
TRIPLE = 'x86_64-unknown-linux-gnu'


class BuildError(Exception):
    pass


def cargo_env():
    e = dict(os.environ)
    e.update(HOME='/root', RUSTUP_TOOLCHAIN='1.86.0', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never',
             RUSTC_WRAPPER='', CARGO_TARGET_DIR=TARGET, RUST_LOG='error', CARGO_INCREMENTAL='0',
             RUSTFLAGS='--cfg target_os="solana" -A explicit_builtin_cfgs_in_flags -C no-vectorize-loops '
                       '-C no-vectorize-slp')
    e['PATH'] = '/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin'
    for k in ('BPF_OUT_DIR', 'SBF_OUT_DIR', 'CARGO_ENCODED_RUSTFLAGS'):
        e.pop(k, None)
    return e


def sources_digest():
    h = hashlib.sha256()
    fs = [os.path.join(REPO, 'Cargo.toml'), os.path.join(REPO, 'program', 'Cargo.toml')]
    for root in (os.path.join(REPO, 'program', 'src'), os.path.join(VERIF, 'harness')):
        for d, dirs, names in os.walk(root):
            dirs.sort()
            fs += [os.path.join(d, n) for n in sorted(names)]
    for f in fs:
        h.update(f.encode() + b'\0')
        with open(f, 'rb') as g:
            h.update(hashlib.sha256(g.read()).digest())
    return h.hexdigest()


def build(variant='release'):
    """-> (LLVM IR, shared object).  Variant `release` is the on-chain configuration; `checked` also turns
    on the overflow checks and debug assertions of the program itself, as its own test builds do"""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, '.verif-lock'), 'w') as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        out = os.path.join(TARGET, TRIPLE, variant)
        ll, so = os.path.join(out, 'vharness.ll'), os.path.join(out, 'vharness.so')
        stamp = os.path.join(TARGET, '.verif-stamp-' + variant)
        dig = sources_digest()
        if os.path.exists(stamp) and open(stamp).read() == dig and os.path.exists(ll) and os.path.exists(so):
            return ll, so
        for f in glob.glob(os.path.join(out, '.fingerprint', 'solana-slashing-program-*', '*')) + \
                glob.glob(os.path.join(out, '.fingerprint', 'vharness-*', '*')) + \
                glob.glob(os.path.join(out, 'deps', 'vharness-*.ll')):
            os.remove(f)
        if os.path.exists(stamp):
            os.remove(stamp)
        r = subprocess.run(['cargo', 'rustc', '--profile', variant, '--offline', '--locked', '--target', TRIPLE, '--',
                            '--emit=llvm-ir,link'], cwd=os.path.join(VERIF, 'harness'), env=cargo_env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError(r.stdout[-4000:])
        lls = glob.glob(os.path.join(out, 'deps', 'vharness-*.ll'))
        if len(lls) != 1:
            raise BuildError('expected one LLVM IR file, found %r' % lls)
        os.replace(lls[0], ll)
        r = subprocess.run(['gcc', '-shared', '-fPIC', '-O1', '-o', so, os.path.join(VERIF, 'engine', 'shim.c'),
                            '-Wl,-u,v_process,-u,v_unpack,-u,v_pack,-u,v_ix_close,-u,v_ix_dup,-u,v_ix_full,-u,v_pda,'
                            '-u,v_sizes,-u,v_report,-u,v_type,-u,v_type_parse,-u,v_error', os.path.join(out, 'libvharness.a'), '-Wl,-Bsymbolic',
                            '-lpthread', '-ldl', '-lm'],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError(r.stdout[-4000:])
        with open(stamp, 'w') as f:
            f.write(dig)
        return ll, so


if __name__ == '__main__':
    for v in ('release', 'checked'):
        print(build(v))
