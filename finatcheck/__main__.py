from .cli import main
import sys
import threading

if __name__ == "__main__":
    sys.setrecursionlimit(200000)
    threading.stack_size(1 << 29)
    rc = []

    def run():
        rc.append(main(sys.argv[1:]))
    t = threading.Thread(target=run)
    t.start()
    t.join()
    sys.stdout.flush()
    sys.exit(rc[0] if rc else 3)
