import re
import printchecks, parsechecks, pairchecks, arithchecks
CHECKS = {}
for m in (printchecks, parsechecks, pairchecks, arithchecks):
    for k, c in vars(m).items():
        if isinstance(c, type) and re.match(r'[A-Z]\d\d+$', getattr(c, 'id', None) or ''):
            CHECKS[c.id] = c
