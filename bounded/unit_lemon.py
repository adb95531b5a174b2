"""Unit drivers for routines of lemon.c (unit_lemon.c): bounded, sampled."""
import os, subprocess, random
from byacc_e2e import Mismatch
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
PROPS = {'acttab': 'L04', 'sort': 'L05', 'tables': 'L06', 'ets': 'L01'}
def setup(wd):
    d = os.path.join(wd, 'unit'); os.makedirs(d, exist_ok=True); exe = os.path.join(d, 'u')
    if not os.path.exists(exe):
        p = subprocess.run(['gcc', '-O1', '-g', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=pointer-overflow,shift,signed-integer-overflow', '-DLEMON_C="%s/lemon/lemon.c"' % REPO, '-o', exe, HERE + '/unit_lemon.c'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode: raise RuntimeError('unit driver does not compile: ' + p.stdout.decode()[-1500:])
    return {'exe': exe}
def case(st, seed, i, want, wd, C, mode, per):
    base = (random.Random(seed).getrandbits(30)) + i * per
    C.cmd = 'unit_lemon %s %d %d' % (mode, base, base + per)
    C.files['input'] = C.cmd + '\n(driver: /verif/bounded/unit_lemon.c, compiled with -DLEMON_C=/repo/lemon/lemon.c)\n'
    p = subprocess.run([st['exe'], mode, str(base), str(base + per)], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=120, env=dict(os.environ, ASAN_OPTIONS='detect_leaks=0'))
    o = p.stdout.decode(errors='replace'); C.files['output'] = o + p.stderr.decode(errors='replace')[:4000]
    C.note = '%d seeds' % per
    if p.returncode: raise Mismatch(PROPS[mode], (o.strip() or ('driver stopped (exit %d): ' % p.returncode) + p.stderr.decode(errors='replace')[:300]))
