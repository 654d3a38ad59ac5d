#!/bin/bash
# builds the AST extractor (offline; needs libclang-18 development files)
cd "$(dirname "$0")" && exec python3 -c "
from hlsa import model
print('extractor', model.build_extractor())
for c in ('py', 'r'):
    model.load(c, model.VERIF + '/ref')
print('reference extracted')
"
