#!/usr/bin/env python3
'''Mutation testing of the checks (a development tool, never used by a check).

  mutate.py N SEED OUT.jsonl [FILE ...]    N random mutants (of FILEs below bglib): first the stable tests, then for those which pass
                                           the checks of the file, until one catches it. One JSON line per mutant.
Works in eight scratch copies of /repo under /tmp, removed at the end.'''
import concurrent.futures, glob, io, json, os, random, re, shutil, subprocess, sys, tempfile, threading, queue, signal

TOKEN = re.compile(r"""(?P<s>[uUrRbB]{0,2}('''(?:.|\n)*?'''|\"\"\"(?:.|\n)*?\"\"\"|'(?:\\\\.|[^'\\\\\n])*'|"(?:\\\\.|[^"\\\\\n])*"))|(?P<c>\#[^\n]*)|(?P<n>\d+\.\d*|\.\d+|\d\w*)|(?P<w>[A-Za-z_]\w*)|(?P<nl>\n)|(?P<o><=|>=|==|!=|<>|\+=|-=|\*\*|//|[^\s])""")


def tokens(s):
    r, start = 1, 0
    for m in TOKEN.finditer(s):
        t = m.group()
        yield m.lastgroup if m.lastgroup else 'o', t, r, m.start() - start
        k = t.count('\n')
        if k:
            r += k
            start = m.start() + t.rindex('\n') + 1

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CHECKS = {
    'model/board.py': 'C06 C02 C01 C07 C04 C03', 'model/boardeditor.py': 'C07 C06 C01 C04', 'model/move.py': 'C02 C03 C05 C01 C04 C08',
    'model/util.py': 'C08 C01 C05 C02', 'model/constants.py': 'C07 C06 C10 C11 C12 C17',
    'encoding/FIBS.py': 'C11', 'encoding/__init__.py': 'C10 C12 C11', 'encoding/dbbyte.py': 'C09', 'encoding/gnubgid.py': 'C10', 'encoding/xgid.py': 'C12',
    'encoding/bearoff/__init__.py': 'C13', 'encoding/bearoff/nori.py': 'C13', 'encoding/bearoff/gnubgdb.py': 'C13', 'encoding/bearoff/trice.py': 'C13',
    'image/base.py': 'C18 C17 C19 C20', 'image/css.py': 'C19 C20 C18', 'image/draw.py': 'C20', 'image/PIL.py': 'C20', 'image/theme.py': 'C20',
    'protocol/fibs.py': 'C29 C28 C30', 'protocol/session.py': 'C30', 'record/snowietxt.py': 'C16',
    'stat/rating.py': 'C14 C15', 'stat/tourney.py': 'C15',
    'doc/bgwiki.py': 'C23 C22 C21 C27 C24', 'doc/doctree.py': 'C26 C23 C22 C21', 'doc/html.py': 'C25 C22 C24', 'doc/macro.py': 'C24 C21 C22',
    'doc/rst.py': 'C27 C21', 'doc/mkdn.py': 'C27', 'doc/__init__.py': 'C21 C27',
}
SWAP = {'<': '<=', '<=': '<', '>': '>=', '>=': '>', '==': '!=', '!=': '==', '+': '-', '-': '+', '*': '+', '/': '*', '%': None, '+=': '-=', '-=': '+=',
        'and': 'or', 'or': 'and', 'not': '', 'True': 'False', 'False': 'True', 'break': 'continue', 'continue': 'break', 'in': 'not in', 'is': 'is not',
        'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'YOU': 'OPP', 'OPP': 'YOU', 'you': 'opp', 'append': 'remove', 'else': None,
        'upper': 'lower', 'lower': 'upper', 'startswith': 'endswith', 'endswith': 'startswith', 'match': 'search', 'search': 'match', 'None': '0'}


def mutants(path):
    s = open(path, encoding='latin-1', newline='').read()
    nl = '\r\n' if '\r\n' in s else '\n'
    lines = s.split('\n')
    out = []
    stop = len(lines) + 1
    for i, l in enumerate(lines):
        if re.match(r'''if __name__ ?== ?['"]__main__''', l):
            stop = i + 1
            break
    prev = None
    for kind, text, r, c in tokens(s):
        if r >= stop:
            break
        L = lines[r - 1]
        new = None
        if kind in 'ow' and SWAP.get(text) is not None:
            if not (text in '+-' and prev in ('(', '=', ',', 'return', '[')) and not (text == 'in' and re.match(r'\s*for ', L)) \
                    and not re.match(r'\s*(import|from|def|class|print)\b', L) and not (text in ('*',) and prev in ('(', ',')) \
                    and not (text == 'match' and (prev != '.')):
                new = SWAP[text]
        elif kind == 'n' and re.match(r'^\d+$', text):
            new = str(int(text) + 1)
            if int(text) and random.random() < .5:
                new = str(int(text) - 1)
        elif kind == 'n' and re.match(r'^\d*\.\d*$', text):
            new = repr(float(text) * 1.1 + .1)
        if new is not None:
            out.append((r, L[:c] + new + L[c + len(text):]))
        prev = text
    for i, l in enumerate(lines[:stop - 1]):
        b = l.strip()
        ind = l[:len(l) - len(l.lstrip())]
        if not ind:
            continue
        if (re.match(r'^[A-Za-z_][\w.\[\]]*\s*(=|\+=|-=)[^=]', b) or re.match(r'^[a-z_][\w.]*\(.*\)$', b)) and b.count('(') == b.count(')') \
                and b.count('[') == b.count(']') and b.count('{') == b.count('}') and not b.endswith('\\') and not b.endswith(','):
            out.append((i + 1, ind + 'pass'))
        m = re.match(r'^(if|elif|while) (.*):$', b)
        if m and b.count('(') == b.count(')'):
            out.append((i + 1, '%s%s not (%s):' % (ind, m.group(1), m.group(2))))
            if m.group(1) != 'while':
                out.append((i + 1, '%s%s True:' % (ind, m.group(1))))
            out.append((i + 1, '%s%s False:' % (ind, m.group(1))))
        if re.match(r'^(raise|return)\b', b) and b.count('(') == b.count(')') and not b.endswith('\\'):
            out.append((i + 1, ind + ('return' if b.startswith('raise') else 'return None')))
    return [(r, n) for r, n in out if n != lines[r - 1]]


def sh(cmd, timeout):
    p = subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        return -9, 'timeout'


want = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])


def tests(d):
    rc, o = sh('cd %s/r && JYTHONPATH=/opt/bgsite:%s/r /opt/jy/jy -B -c "import nose; nose.main()" --with-xunit --xunit-file=%s/nose.xml bglib < /dev/null; '
               '/usr/bin/python3 /opt/vp/results.py %s/o.json junit:%s/nose.xml' % (d, d, d, d, d), 120)
    if rc == -9:
        return ['timeout']
    try:
        return sorted(want - set(json.load(open(d + '/o.json'))['passed']))
    except Exception as e:
        return ['no result']


def one(m, d):
    f, r, new = m['file'], m['line'], m['new']
    p = os.path.join(d, 'r/bglib', f)
    s = open(p, encoding='latin-1', newline='').read()
    lines = s.split('\n')
    m['old'] = lines[r - 1]
    lines[r - 1] = new
    for x in ('o.json', 'nose.xml'):
        if os.path.exists(d + '/' + x):
            os.remove(d + '/' + x)
    try:
        open(p, 'w', encoding='latin-1', newline='').write('\n'.join(lines))
        miss = tests(d)
        if miss:
            m['result'] = 'tests'
            return m
        m['result'] = 'SURVIVED'
        for c in CHECKS[f].split():
            rc, o = sh('cd %s/v && VF_SHARDS=1 VF_REPO=%s/r VERIF_SEED=1 VERIF_TIER=quick python3-vt checks/run.py %s --scale=%s' % (d, d, c, os.environ.get('SCALE', '0.7')), 900)
            if rc == 1 and 'VIOLATION property=' in o:
                m['result'] = c
                break
            if rc:
                m['note'] = '%s rc %s %s' % (c, rc, o[-300:])
                m['result'] = 'rc'
        return m
    finally:
        open(p, 'w', encoding='latin-1', newline='').write(s)


def main():
    n, seed, out = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
    files = sys.argv[4:] or sorted(CHECKS)
    random.seed(seed)
    done = set()
    for g in glob.glob(os.path.dirname(os.path.abspath(out)) + '/mut*.jsonl'):
        for l in open(g):
            e = json.loads(l)
            done.add((e['file'], e['line'], e['new']))
    pool = []
    for f in files:
        ms = [dict(file=f, line=r, new=x) for r, x in mutants('/repo/bglib/' + f)]
        print(f, len(ms))
        pool += [m for m in ms if (m['file'], m['line'], m['new']) not in done]
    random.shuffle(pool)
    pool = pool[:n]
    T = tempfile.mkdtemp(prefix='mut-')
    dirs = queue.Queue()
    J = int(os.environ.get('JOBS', '8'))
    for i in range(J):
        d = '%s/%d' % (T, i)
        os.makedirs(d + '/v/evidence'); os.makedirs(d + '/v/replays')
        subprocess.check_call('cp -a /repo %s/r; cp -a %s/checks %s/lib %s/tools %s/known_findings.jsonl %s/MANIFEST.json %s/v/' % (d, VERIF, VERIF, VERIF, VERIF, VERIF, d), shell=True)
        dirs.put(d)
    lock = threading.Lock()

    def job(m):
        d = dirs.get()
        try:
            one(m, d)
        except Exception as e:
            m['result'] = 'tool ' + repr(e)
        finally:
            dirs.put(d)
        with lock:
            open(out, 'a').write(json.dumps(m) + '\n')
    try:
        with concurrent.futures.ThreadPoolExecutor(J) as ex:
            list(ex.map(job, pool))
    finally:
        shutil.rmtree(T)


if __name__ == '__main__':
    main()
