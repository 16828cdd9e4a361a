"""Claims are encoded injectively and the deferred claim is checked in full."""
from lib import encir, vccheck


def check(ck):
    vccheck.run(ck, 'deferred')
    encir.run(ck, (2, 3, 5) if ck.tier == 'quick' else (1, 2, 3, 4, 5, 8, 14))
    ck.functions += ['proofs::Deferred::to_bytes', 'proofs::Leftovers::to_bytes']
    ck.bounds.append('encodings: every byte of every element, k up to 5 (quick) or 14 (thorough), identity points included')
