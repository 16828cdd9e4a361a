"""Builds the harness from /repo's working tree and runs scenarios."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
REPO = '/repo'
TARGET = os.path.join(ROOT, 'target')


def env(flags='', target='harness'):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN='stable', CARGO_NET_OFFLINE='true',
             CARGO_TARGET_DIR=os.path.join(TARGET, target),
             RUSTFLAGS='--cfg halo_verif -Awarnings ' + flags, RUST_BACKTRACE='0')
    return e


class BuildError(Exception):
    pass


def build(features=None, bin='halosym'):
    cmd = ['cargo', 'build', '--offline', '-q', '--bin', bin, '--manifest-path', os.path.join(ROOT, 'harness', 'Cargo.toml')]
    if bin in ('prf', 'rcs'):
        cmd += ['--config', 'profile.dev.opt-level=1']
    if features:
        cmd += ['--features', features]
    r = subprocess.run(cmd, env=env(), capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(r.stderr[-6000:])
        raise BuildError('harness build failed')
    return os.path.join(TARGET, 'harness', 'debug', bin)


class HarnessFailure(Exception):
    pass


def run(args, inputs=None, timeout=300, cpus=None, bin='halosym'):
    exe = os.path.join(TARGET, 'harness', 'debug', bin)
    txt = ''.join(f'{k} {v:#x}\n' for k, v in (inputs or {}).items())
    e = dict(os.environ)
    if cpus:
        e['HALO_CPUS'] = str(cpus)
    r = subprocess.run([exe] + [str(a) for a in args], input=txt, capture_output=True, text=True, timeout=timeout, env=e)
    if r.returncode:
        raise HarnessFailure(f'{args}: exit {r.returncode}: {r.stderr[-500:]}')
    return json.loads(r.stdout)
