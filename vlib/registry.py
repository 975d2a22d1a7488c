from . import adschecks, crashcheck, damagecheck, smallchecks, storechecks, treechecks
CHECKS = dict(adschecks.CHECKS, C05=crashcheck.c05, **damagecheck.CHECKS, **smallchecks.CHECKS, **storechecks.CHECKS, **treechecks.CHECKS)
