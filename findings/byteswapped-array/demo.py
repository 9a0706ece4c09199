"""An array keeps its values on the way through the server, whatever its byte order."""
import sys
sys.path.insert(0, '/repo/_build')
import numpy as np
import libpybind as r

t = r.Table('t', r.UniformSelector(), r.FifoSelector(), 1000, 0,
            r.RateLimiter(1.0, 1, -1e9, 1e9), [], None)
s = r.Server([t], 19732, None)
c = r.Client('localhost:19732')
w = c.NewWriter(1, 1, False, None)
x = np.array([1.0, 2.0, 3.0], '>f4')
w.Append([x])
w.CreateItem('t', 1, 1.0)
w.Close(True)
sm = c.NewSampler('t', 1, 1)
y = sm.GetNextTimestep()[0][4]
print(x, x.dtype, y, y.dtype)
sys.exit(not (x == y).all())
