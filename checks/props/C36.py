"""A recursion step is accepted only as a whole."""
from lib import recir
from lib.par import parallel


def check(ck):
    js = recir.jobs()
    parallel(ck, [(j.label, recir.run_job(j)) for j in js], limit=600)
    ck.bounds += ['all outcomes and errors of the component verifications; all values of 1 payload byte and 1 byte per claim encoding (32 public input bits), 2 new payload bytes and 3 fork values']
    ck.assumptions += ['proof creation and verification, claim verification and encodings are stand-ins whose results are free (what they do is C31 to C35)']
