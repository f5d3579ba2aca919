#!/bin/bash
# dev helper: incremental build in /tmp/dev, run one property: dev.sh files... -- args
mkdir -p /tmp/dev/s /tmp/dev/r/pybind
cd /tmp/dev
cat > Makefile <<'M'
FL=-std=c++20 -O1 -g1 -fno-omit-frame-pointer -DNDEBUG -fsanitize=address -D_GLIBCXX_ASSERTIONS -ftrivial-auto-var-init=pattern -I/repo/include -I/verif/harness -I/verif/harness/py -Wall -Wno-psabi
OBJ=r/pybind/pybind.o $(patsubst /repo/src/%.cpp,r/%.o,$(wildcard /repo/src/*.cpp)) $(patsubst /verif/harness/%.cpp,%.o,$(SRC))
h: $(OBJ)
	@g++ -fsanitize=address $^ -o $@
r/%.o: /repo/src/%.cpp $(wildcard /repo/include/*.hpp)
	@g++ $(FL) -fsanitize-coverage=trace-pc,trace-cmp -w -c $< -o $@
%.o: /verif/harness/%.cpp $(wildcard /verif/harness/*.hpp)
	@g++ $(FL) -c $< -o $@
M
SRC="$(ls /verif/harness/*.cpp | grep -v libfuzz | tr '\n' ' ')"
make -s -j8 h SRC="$SRC" 2>&1 | grep -E 'error|warning' | head -${LINES_MAX:-20}
for id in "$@"; do
  ./h --id $id --seed ${SEED:-1} --tier ${TIER:-quick} --scratch /tmp/dev/s --out /tmp/dev/o.json --replay-dir /tmp/dev --scale ${SCALE:-1} $XARGS >/tmp/dev/log 2>&1; rc=$?
  python3 - $id $rc <<'P'
import json,sys
try: d=json.load(open('/tmp/dev/o.json'))
except Exception as e: print(sys.argv[1],'no result',e); sys.exit()
for c in d['checks']:
    print(sys.argv[1],'rc',sys.argv[2],c['name'],c['evaluations'],c['distinct_nontrivial'],'%.1fs'%c['wall_s'],'unrep',c['unreproducible'], c['message'][:1800])
P
done
