#!/bin/bash
# bugtests.sh ID [workers] [pytest args]: do the repository's stable tests pass with planted bug ID? (in a scratch clone)
id=$1; n=${2:-8}; shift; shift
D=/tmp/plant/t_$id; rm -rf "/tmp/plant/t_$id"; mkdir -p /tmp/plant
git clone -q /repo $D || exit 9
git -C $D apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; rm -rf "/tmp/plant/t_$id"; exit 9; }
export MPLBACKEND=Agg MPLCONFIGDIR=/tmp/plant/mpl OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH=$D:/opt/vp/plugins:$D/BayesicFitting/test
cd $D; T=BayesicFitting/test
timeout 1500 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:warnings -p seedrng -o python_files='Test*.py' -n $n --dist worksteal --timeout=400 --tb=no \
  --continue-on-collection-errors --ignore=$T/TestModifiable.py --ignore=$T/TestNestedSampler.py --ignore=$T/TestNestedSolver.py --ignore=$T/TestPhantomSampler.py \
  -o junit_family=xunit2 --junitxml=$D/junit.xml "$@" $T > $D/test.log 2>&1
/opt/venv/bin/python - $D $id <<'P'
import json,sys,xml.etree.ElementTree as E
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
bad=[];n=0
for c in E.parse(sys.argv[1]+'/junit.xml').getroot().iter('testcase'):
    name=c.get('classname')+'::'+c.get('name'); n+=1
    if any(k.tag in('failure','error') for k in c) and name in b: bad.append(name)
print(sys.argv[2], "tests", n, "stable failing:", bad)
P
cd /; rm -rf "/tmp/plant/t_$id"
