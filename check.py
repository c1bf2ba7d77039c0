#!/opt/venv/bin/python
"""python check.py <property id> : decide one property on /repo's working tree"""
import os
import sys

if __name__ == '__main__':
    here = os.path.dirname(os.path.abspath(__file__))
    sys.dont_write_bytecode = True
    sys.path.insert(0, here)
    if os.environ.get('PYTHONHASHSEED') != '0':
        os.environ['PYTHONHASHSEED'] = '0'
        os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
        for k in ('PYHWP_PLAT_UNO', 'PYHWP_XSLTPROC', 'PYHWP_XMLLINT', 'LC_ALL', 'LANGUAGE'):
            os.environ.pop(k, None)
        os.environ['LANG'] = 'C.UTF-8'
        os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python', '-W', 'ignore'] + sys.argv)
    from lib import harness
    rc = harness.main(sys.argv[1])
    sys.stdout.flush()
    os._exit(rc)
