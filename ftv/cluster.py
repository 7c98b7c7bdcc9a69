"""A private dask cluster (real worker processes, loopback) in a subprocess:
prints its address, lives until stdin closes."""
import os
import subprocess
import sys


def start(n_workers=4):
    p = subprocess.Popen([sys.executable, "-W", "ignore", "-m", "ftv.cluster", str(n_workers)], stdin=subprocess.PIPE,
                         stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
    addr = p.stdout.readline().strip()
    if not addr.startswith("tcp://"):
        raise RuntimeError("no dask cluster: %r" % addr)
    os.environ["FTV_CLUSTER"] = addr
    return p


def stop(p):
    p.stdin.close()
    try:
        p.wait(20)
    except subprocess.TimeoutExpired:
        p.kill()


def main():
    import tempfile
    import logging
    logging.getLogger("distributed").setLevel(logging.CRITICAL)
    from distributed import LocalCluster
    with tempfile.TemporaryDirectory(prefix="ftv_dask_") as d:
        c = LocalCluster(n_workers=int(sys.argv[1]), threads_per_worker=1, processes=True, host="127.0.0.1",
                         dashboard_address=None, local_directory=d, memory_limit="6GB")
        print(c.scheduler_address, flush=True)
        sys.stdin.read()
        c.close()


if __name__ == "__main__":
    main()
