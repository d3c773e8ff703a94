#!/usr/bin/env python3-vt
"""python3-vt checks/run.py Cxx [--thorough] [--part=NAME] [--scale=F] [--replay FILE]"""
import os, shutil, sys, tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), 'lib')]
os.environ.setdefault('PYTHONHASHSEED', '0')
os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
sys.dont_write_bytecode = True
# spawned shards find the modules by this
os.environ['PYTHONPATH'] = ':'.join(sys.path[:2] + ([os.environ['PYTHONPATH']] if os.environ.get('PYTHONPATH') else []))
import vf
if __name__ == '__main__':
    # scratch files of this run, those of the shards included, lie in one folder
    scratch = tempfile.mkdtemp(prefix='vf-')
    os.environ['TMPDIR'] = tempfile.tempdir = scratch
    try:
        code = vf.main(sys.argv[1].lower())
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(code)
