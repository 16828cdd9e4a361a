"""Builds the IR wrappers from /repo's working tree: the IR to interpret and a shared library for replay."""
import ctypes, glob, os, re, subprocess, sys
from .build import ROOT, TARGET, BuildError, env
from .ir import Module

TD = os.path.join(TARGET, 'irw')


def build(features=None):
    e = env('--emit=llvm-ir,link -C no-prepopulate-passes', 'irw')
    r = subprocess.run(['cargo', 'build', '--offline', '-q', '--manifest-path', os.path.join(ROOT, 'irw', 'Cargo.toml')] + (['--features', features] if features else []),
                       env=e, capture_output=True, text=True)
    if r.returncode:
        sys.stderr.write(r.stderr[-6000:])
        raise BuildError('IR wrapper build failed')


def newest(name):
    d = os.path.join(TD, 'debug', 'deps')
    fs = glob.glob(os.path.join(d, name + '-*.ll')) + glob.glob(os.path.join(d, name + '.ll'))
    return max(fs, key=os.path.getmtime) if fs else None


def load():
    m = Module()
    d = os.path.join(TD, 'debug', 'deps')
    names = {re.sub(r'(-[0-9a-f]{16})?\.ll$', '', os.path.basename(f)) for f in glob.glob(os.path.join(d, '*.ll'))}
    first = ['irw', 'halo', 'subtle', 'byteorder']
    for n in first + sorted(names - set(first)):
        f = newest(n)
        if f:
            m.load(f)
    return m


def native():
    return ctypes.CDLL(os.path.join(TD, 'debug', 'libirw.so'))
