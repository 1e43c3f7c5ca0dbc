"""Builds the symbolic executor, the compiler IR and the replay programs once."""
import concurrent.futures, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
with concurrent.futures.ThreadPoolExecutor(4) as ex:
    fs = [ex.submit(build.kemsym), ex.submit(build.replay), ex.submit(build.ir, "mlkem", "dbg")]
    for f in fs:
        print(f.result())
