#!/bin/bash
# mkseed.sh ID PROP "needs" "breaks" < blocks  (demo.sh is then written by hand)
cd /verif; mkdir -p seeded/$1
python3 meta/mkref.py $1 seeded/$1/patch.diff || exit 1
python3 -c "
import json,sys
json.dump({'property':sys.argv[2],'needs':sys.argv[3],'what_it_breaks':sys.argv[4]},open('seeded/'+sys.argv[1]+'/meta.json','w'),indent=1)" "$@"
