"""Runs check bodies against the real built package (subprocess)."""
import importlib
import json
import os
import signal
import sys
import warnings
import contextlib


def main(fi, fo):
    with open(fi) as f:
        d = json.load(f)
    import pywt
    from engine.env import ConEnv, Stop
    from engine.decode import decode_inputs
    mod = importlib.import_module(d['mod'])
    warnings.simplefilter('ignore')

    class TO(BaseException):
        pass
    out = open(fo, 'w')
    for key, fn, cfg, inputs in d['jobs']:
        if getattr(mod, 'FORK_JOBS', False):        # every job starts without history
            pid = os.fork()
            if pid:
                if os.waitpid(pid, 0)[1]:
                    os._exit(3)
                continue
        env = ConEnv(pywt, decode_inputs(inputs))
        # a C loop that never returns cannot be interrupted by a Python signal handler:
        # the default action (process death) is the observable
        signal.signal(signal.SIGALRM, signal.SIG_DFL)
        signal.alarm(int(d['timeout']))
        try:
            with contextlib.suppress(Stop):
                getattr(mod, fn)(env, **cfg)
        except Exception as e:
            env.fails.append(('exception', '%s: %s' % (type(e).__name__, e)))
        signal.alarm(0)
        r = dict(key=key, fails=env.fails, nchk=env.nchk, outs=[[[x.real, x.imag] for x in a] for a in env.actuals])
        out.write(json.dumps(r) + '\n')
        out.flush()
        if getattr(mod, 'FORK_JOBS', False):
            os._exit(0)
    out.close()


main(sys.argv[1], sys.argv[2])
