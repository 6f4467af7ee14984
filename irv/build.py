"""Compile the real sources of /repo to LLVM IR on every run."""
import hashlib
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(__file__))
from irparse import Module

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class CompileError(Exception):
    pass


def to_ir(unit_cc, out, extra=()):
    """unit_cc: path of a driver TU that #includes /repo sources"""
    ll0 = out + '.0.ll'
    cmd = ['clang++', '-std=c++20', '-w', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-ffp-contract=off',
           '-fno-builtin', '-DNDEBUG', '-U_FORTIFY_SOURCE',
           '-I', os.path.join(VERIF, 'shims'), '-I', REPO, '-I', os.path.join(REPO, 'include'), *extra, '-S', '-emit-llvm', unit_cc, '-o', ll0]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise CompileError(p.stderr[-3000:])
    p = subprocess.run(['opt', '-S', '-passes=function(sroa<modify-cfg>,simplifycfg)', ll0, '-o', out], capture_output=True, text=True)
    if p.returncode:
        raise CompileError(p.stderr[-3000:])
    os.unlink(ll0)
    return ' '.join(cmd)


def load(unit_cc, workdir, extra=()):
    out = os.path.join(workdir, os.path.basename(unit_cc) + '.ll')
    cmd = to_ir(unit_cc, out, extra)
    with open(out) as f:
        m = Module(f.read())
    m.cmd = cmd
    return m
