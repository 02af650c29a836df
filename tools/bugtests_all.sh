#!/bin/bash
# all planted bugs (or those named) together in one clone: which stable tests fail? Bugs that touch a failing test's files need bugtests.sh
D=/tmp/plant/t_all; rm -rf /tmp/plant/t_all; mkdir -p /tmp/plant
git clone -q /repo $D || exit 9
cd /verif/seeded; for id in ${@:-*}; do git -C $D apply /verif/seeded/$id/patch.diff || echo "$id does not apply with the others"; done
export MPLBACKEND=Agg MPLCONFIGDIR=/tmp/plant/mpl OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH=$D:/opt/vp/plugins:$D/BayesicFitting/test
cd $D; T=BayesicFitting/test
timeout 1500 /opt/venv/bin/python -m pytest -q -p no:cacheprovider -p no:warnings -p seedrng -o python_files='Test*.py' -n 8 --dist worksteal --timeout=400 --tb=short \
  --continue-on-collection-errors --ignore=$T/TestModifiable.py --ignore=$T/TestNestedSampler.py --ignore=$T/TestNestedSolver.py --ignore=$T/TestPhantomSampler.py \
  -o junit_family=xunit2 --junitxml=$D/junit.xml $T > $D/test.log 2>&1
/opt/venv/bin/python - $D <<'P'
import json,sys,xml.etree.ElementTree as E
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
n=0
for c in E.parse(sys.argv[1]+'/junit.xml').getroot().iter('testcase'):
    name=c.get('classname')+'::'+c.get('name'); n+=1
    if any(k.tag in('failure','error') for k in c) and name in b: print("FAIL",name,[k.get('message','')[:150] for k in c][:1])
print("tests",n)
P
cp $D/test.log /tmp/plant/test_all.log; cd /; rm -rf /tmp/plant/t_all
