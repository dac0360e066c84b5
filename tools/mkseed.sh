#!/bin/bash
# mkseed.sh <id> <property> <file> '<python editing s>' "<needs>" "<breaks>"  -> seeded/<id>/patch.diff, meta.json (demo.sh written separately)
D=/verif/seeded/$1; mkdir -p $D
cd /repo && [ -z "$(git status --porcelain)" ] || { echo dirty; exit 1; }
python3 - "$3" "$4" <<'P' || exit 1
import sys,re
p='/repo/discrete_src/'+sys.argv[1]; s=open(p,newline='').read(); o=s
exec(sys.argv[2]); assert s!=o,"no change"; open(p,'w',newline='').write(s)
P
git diff > $D/patch.diff; git checkout -q -- .
python3 -c "
import json,sys; json.dump({'property':sys.argv[1],'needs':sys.argv[2],'what_it_breaks':sys.argv[3]},open('$D/meta.json','w'),indent=1)" "$2" "$5" "$6"
cp /verif/tools/seedkit/build.sh /verif/tools/seedkit/run.cpp $D/
cat $D/patch.diff | head -${7:-30}
