import sys
import threading
from .runner import main

rc = [2]


def go():
    rc[0] = main(sys.argv[1:])


threading.stack_size(512 * 1024 * 1024)
t = threading.Thread(target=go)
t.start()
t.join()
sys.stdout.flush()
sys.exit(rc[0])
