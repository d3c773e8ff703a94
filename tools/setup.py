"""Nothing to build: checks that the tools the checks need are here."""
import os, subprocess, sys
import hypothesis
assert os.path.exists('/opt/jy/jy') and os.path.isdir('/opt/bgsite')
print('hypothesis', hypothesis.__version__, 'python', sys.version.split()[0])
out = subprocess.run(['/opt/jy/jy', '-B', '-c', 'import sys; print sys.version'], capture_output=True, text=True, cwd='/')
print(out.stdout.strip())
sys.exit(out.returncode)
