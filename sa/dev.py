"""dev loop: cached facts"""
import hashlib, os, pickle, subprocess, sys, time, threading
HERE = os.path.dirname(os.path.abspath(__file__)); sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
threading.stack_size(512 * 1024 * 1024); sys.setrecursionlimit(60000)
import prep
def facts():
    h = hashlib.sha256(open(prep.TOOL_SRC,'rb').read())
    for d, ds, fs in os.walk(os.path.join(prep.REPO, 'src')):
        ds.sort()
        if d.endswith(('/obj', '/bin', '/lib')): continue
        for f in sorted(fs):
            if f.endswith(('.cc', '.c', '.h', '.y', '.l', '.config', 'Makefile', '.mak')):
                h.update(f.encode()); h.update(open(os.path.join(d, f), 'rb').read())
    p = '/tmp/zmdp-facts-%s.pkl' % h.hexdigest()[:12]
    if os.path.exists(p):
        return pickle.load(open(p, 'rb'))
    r = prep.extract()
    pickle.dump(r, open(p, 'wb'))
    return r
def load():
    from core import Program
    raw, T, cfg = facts()
    return Program(raw, T), cfg
def main(f):
    t = threading.Thread(target=f); t.start(); t.join()
