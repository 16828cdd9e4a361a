"""The verification circuit accepts exactly what verification of the previous proof accepts."""
from lib import vccheck


def check(ck):
    vccheck.run(ck, 'previous')
