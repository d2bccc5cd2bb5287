#!/bin/bash
# mkseed.sh <id>: take the uncommitted change in /tmp/seedrepo as seeded/<id>/patch.diff, add the kit and demo.sh
V=$(cd "$(dirname "$0")/.." && pwd); S=$V/seeded/$1; mkdir -p $S; git -C ${SR:-/tmp/seedrepo} diff > $S/patch.diff; cp $V/tools/kit.py $S/kit.py
printf '#!/bin/bash\nexec python3 "$(dirname "$0")/demo.py"\n' > $S/demo.sh; git -C ${SR:-/tmp/seedrepo} checkout -q -- .; wc -l $S/patch.diff
