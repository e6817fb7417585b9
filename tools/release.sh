#!/bin/bash
# refreshes the committed executor and the generated files, then commits
set -e
cd "$(dirname "$0")/.."
k=$(python3 -c "
import hashlib,os
h=hashlib.sha256()
for f in sorted(os.listdir('engine')):
    if f.endswith(('.hpp','.cpp')): h.update(f.encode()); h.update(open('engine/'+f,'rb').read())
print(h.hexdigest()[:16])")
mkdir -p engine/bin
[ -x engine/bin/tfsym-$k ] || { find engine/bin -name 'tfsym-*' -delete; engine/build.sh engine/bin/tfsym-$k; strip engine/bin/tfsym-$k; }
python3-vt tools/gen.py
python3-vt tools/design.py
git add -A; git commit -qm "${1:-wip}" || true
