import fieldchecks, parchecks, algchecks, iochecks, gencheck
CHECKS = {}
for m in (fieldchecks, parchecks, algchecks, iochecks, gencheck):
    CHECKS.update(m.CHECKS)
