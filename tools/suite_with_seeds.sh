#!/bin/bash
# suite_with_seeds.sh ID...: apply all given changes together and run the repository's tests
for id in "$@"; do git -C /repo apply /verif/seeded/$id/patch.diff || { echo "cannot apply $id"; git -C /repo checkout -- .; exit 2; }; done
bash /opt/vp/test.sh /tmp/suite_out.json > /tmp/suite.log 2>&1
git -C /repo checkout -- .
grep -E "^(FAILED|ERROR)|passed|failed" /tmp/suite.log | head -30
