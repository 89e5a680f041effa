# Development only. amut.py BASE FILES... : tries every change mutgen finds in the
# files of the copy BASE of the repository, keeps those that build and pass the
# tests, and runs the properties of the file against each until one objects.
# Results go to /tmp/amut.out, one JSON line per surviving or caught change.
import sys, json, subprocess, os, shutil, threading, queue
base = sys.argv[1]
files = sys.argv[2:]
OUT = os.environ.get('AMUT_OUT', '/tmp/amut.out')
N = os.environ.get('AMUT_N', '3000')
CRAWL = 'C01 C03 C08 C16 C17 C05 C06 C07 C11 C02 C04 R01'
PROPS = {
 'engine.go': CRAWL, 'queue.go': 'C13 C03 C01 C17', 'fetcher.go': 'C10 C11 C04 C03 C01 C15', 'dedupe.go': 'C12 C02 R01',
 'page.go': 'C15 C11 C01 R01', 'json.go': 'C14 R01', 'list.go': 'C15 C14 R01', 'limiters.go': 'C09 C08', 'matchers.go': 'C08',
 'internal/normalize/url.go': 'C02 C01 C06', 'internal/robots/cache.go': 'C06 C07 C03 C11 R01', 'internal/scan': 'C14 C15 R01',
 'internal/selectors': 'C15 C14 R01', 'antcache/disk.go': 'C33 C30 C31 C32 R01', 'antcache': 'C20 C21 C22 C23 C24 C26 C11 R01',
 'antcdp': 'C40 C41 C42 C43 R01',
}
if os.path.exists('/tmp/amut.props'):
    PROPS.update(json.load(open('/tmp/amut.props')))
def props(f):
    return (PROPS.get(f) or PROPS.get(os.path.dirname(f)) or CRAWL).split()
done = set()
if os.path.exists(OUT):
    for l in open(OUT):
        d = json.loads(l); done.add((d['File'], d['Start'], d['End'], d['New']))
muts = []
for f in files:
    for l in subprocess.check_output(['/tmp/mutgen', f], cwd=base, text=True).splitlines():
        m = json.loads(l)
        if (m['File'], m['Start'], m['End'], m['New']) not in done:
            muts.append(m)
lock = threading.Lock()
def out(m):
    with lock, open(OUT, 'a') as o:
        o.write(json.dumps(m) + '\n')
good = queue.Queue()
todo = queue.Queue()
for m in muts: todo.put(m)
def sh(cmd, cwd, t):
    try:
        r = subprocess.run(['setsid', 'timeout', '-k', '1', str(t)] + cmd, cwd=cwd, capture_output=True, text=True)
        return r.returncode, r.stdout + r.stderr
    except Exception as e:
        return 99, str(e)
def apply(d, m):
    b = open(base + '/' + m['File'], 'rb').read()
    open(d + '/' + m['File'], 'wb').write(b[:m['Start']] + m['New'].encode() + b[m['End']:])
def restore(d, m):
    shutil.copyfile(base + '/' + m['File'], d + '/' + m['File'])
NF, NS = int(os.environ.get('AMUT_F', '3')), int(os.environ.get('AMUT_S', '2'))
def filt(i):
    d = f'/tmp/amf{i}'
    subprocess.call(['rsync', '-a', '--delete', '--exclude', '.git', base + '/', d + '/'])
    while True:
        try: m = todo.get_nowait()
        except queue.Empty: return
        apply(d, m)
        rc, o = sh(['go', 'vet', './' + os.path.dirname(m['File'])], d, 60)
        if rc == 0:
            rc, o = sh(['go', 'test', './...'], d, 40)
            if rc == 0: good.put(m)
            else: m['Result'] = 'tests'; out(m)
        else: m['Result'] = 'build'; out(m)
        restore(d, m)
def run(i):
    d = f'/tmp/ams{i}'
    subprocess.call(['rsync', '-a', '--delete', '--exclude', '.git', base + '/', d + '/'])
    S = d + '.sim'
    subprocess.call(['rsync', '-a', '--delete', '/verif/sim/', S + '/'])
    subprocess.call(['sed', '-i', f's|=> /repo|=> {d}|', S + '/go.mod'])
    os.makedirs(d + '.out', exist_ok=True)
    subprocess.check_call(['go', 'build', '-o', d + '.ctl', './ctl'], cwd=S)
    while True:
        m = good.get()
        if m is None: good.put(None); return
        apply(d, m)
        m['Result'] = 'SURVIVED'
        for p in props(m['File']):
            n = N if p != 'R01' else str(int(N) // 4)
            rc, o = sh([d + '.ctl', '-sim', S, '-build', d + '.out', '-j', '4', '-n', n, '-nomin', 'check', p], S, 200)
            if rc != 0:
                l = [x for x in o.split('\n') if x.startswith('run ')]
                m['Result'] = 'caught'; m['By'] = p + ': ' + (l[0][:160] if l else f'rc={rc} ' + o[-160:])
                break
        out(m); restore(d, m)
fs = [threading.Thread(target=filt, args=(i,)) for i in range(NF)]
ss = [threading.Thread(target=run, args=(i,)) for i in range(NS)]
for t in fs + ss: t.start()
for t in fs: t.join()
good.put(None)
for t in ss: t.join()
print('done')
