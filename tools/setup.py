#!/usr/bin/env python3
"""Checks that the pre-installed verifiers are there; nothing needs building."""
import shutil, sys
missing = [t for t in ('gcc', 'goto-cc', 'goto-instrument', 'cbmc', 'cvc5') if not shutil.which(t)]
if missing:
    sys.exit('missing tools: ' + ', '.join(missing))
print('verifiers present')
