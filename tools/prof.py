#!/usr/bin/env python3
"""development aid: prof.py ID SECONDS - where the analysis is after that time"""
import sys, os, threading, traceback, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
pid, sec = sys.argv[1], float(sys.argv[2])


def watch():
    time.sleep(sec)
    for t, f in sys._current_frames().items():
        st = traceback.extract_stack(f)
        for x in st:
            if '/verif' in x.filename:
                print(os.path.basename(x.filename), x.lineno, x.name)
        print('--')
    os._exit(9)


threading.Thread(target=watch, daemon=True).start()
__file__ = V + '/check.py'
sys.argv = ['check.py', pid, '--tier', 'quick']
exec(open(__file__).read())
