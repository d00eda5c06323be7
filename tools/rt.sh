# run the repository tests with the stand-ins (not part of any check)
mkdir -p /tmp/jt; cd /repo
export JYTHONPATH=/opt/jylib:/verif/stubs:/repo:/tmp/jt LC_ALL=C.UTF-8
jython -B /opt/vp/run_nose.py -v --with-doctest openquake/commonlib 2>&1 | grep -v "ok$" > /tmp/jt/last.txt
grep -E "^(ERROR|FAIL|Ran)" /tmp/jt/last.txt | sed "s, in [0-9.]*s$,," | sort | diff - /tmp/jt/base.txt && echo same as baseline
