"""32-bit word and SHA-256 gadgets match the standard."""
import itertools
from lib import build, solver
from lib.bitspec import word_case, sha_case, run_cases


def cases(tier):
    out = []
    for f in 'pq' if tier != 'quick' else 'p':
        C = lambda *a, **k: out.append(word_case(f, *a, **k))
        P = 'bin01in10nni'
        for kd in ['v', 'deadbeef', P]:
            C('alloc', [kd])
            for op in ('be', 'le', 'rev'):
                C(op, [kd])
        cs = ['v', '9e3779b1', P, 'bn', 'b0i1n', 'b1110i0n', 'b01']
        for a, b in itertools.product(cs, repeat=2):
            C('xor', [a, b])
        tri = ['v', 'bn', 'b01', 'binn01', 'b10'] if tier == 'quick' else cs
        for t in itertools.product(tri, repeat=3):
            C('ch', t)
            C('maj', t)
        for n in range(2, 11):
            C('add', ['v'] * n)
            C('add', (['v', 'fffffff1', 'bn', P, '80000000'] * 2)[:n])
            C('add', ['ffffffff'] * n)
        C('add', ['v', '0'])
        C('add', ['bn', 'bn'])
        C('add', ['b0', 'b1', 'b0'])
        for k in range(0, 40) if tier != 'quick' else [0, 1, 2, 3, 6, 7, 10, 11, 13, 17, 18, 19, 22, 25, 31, 32, 33]:
            C('rotr', [P], k=k)
            if k < 32:
                C('shr', [P], k=k)
    for f in 'pq' if tier != 'quick' else 'p':
        for n in [0, 8, 440, 448, 512, 520, 1024] if tier != 'quick' else [0, 8, 440, 448, 512]:
            out.append(sha_case(f, n))
        out.append(sha_case(f, 512, block=True))
    if tier == 'quick':
        out.append(sha_case('q', 24))
    return out[::-1]


def check(ck):
    build.build()
    solver.ensure()
    run_cases(ck, cases(ck.tier))
    from lib import witir
    witir.run(ck, ['u32'])
    ck.functions = ['UInt32::{constant,alloc,into_bits,into_bits_be,from_bits,from_bits_be,rotr,shr,xor,sha256_ch,sha256_maj,addmany}',
                    'Boolean::{xor,and,sha256_ch,sha256_maj,not,lc}', 'sha256::{sha256,sha256_block_no_padding,sha256_compression_function}']
    ck.bounds = ['every value of every input bit; operands: allocated, constant, negated and mixed bit patterns as listed; addmany of 2..10 operands; '
                 'messages of 0..1024 bits (0, 1, 55, 56, 64, 65, 128 bytes)']
    ck.assumptions = ['the boolean gadgets used inside are decided here from the raw constraints',
                      'quick: field p for the word functions']
