#!/usr/bin/env python3
import sys, os
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'lib'))
sys.setrecursionlimit(200000)
import threading, resource
resource.setrlimit(resource.RLIMIT_AS, (18 << 30, 18 << 30))
threading.stack_size(512 * 1024 * 1024)
def run():
    global rc
    import harness
    try: rc = harness.main(sys.argv[1:])
    except BaseException:
        import traceback; traceback.print_exc(); rc = 3
rc = 3
t = threading.Thread(target=run); t.start(); t.join()
sys.stdout.flush()
import irload, shutil
if irload._scratch: shutil.rmtree(irload._scratch, ignore_errors=True)
os._exit(rc)
