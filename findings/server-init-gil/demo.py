"""While a server loads a checkpoint, other Python threads must keep running."""
import sys, tempfile, threading, time
sys.path.insert(0, '/repo/_build')
import numpy as np
import libpybind as r

def tables():
  return [r.Table('t', r.UniformSelector(), r.FifoSelector(), 200000, 0,
                  r.RateLimiter(1.0, 1, -1e9, 1e9), [], None)]

with tempfile.TemporaryDirectory() as d:
  s = r.Server(tables(), 19731, r.create_default_checkpointer(d, '', None))
  c = r.Client('localhost:19731')
  w = c.NewWriter(1, 1, False, None)
  x = np.random.bytes(64)
  for i in range(20000):
    w.Append([np.frombuffer(x, np.uint8)])
    w.CreateItem('t', 1, 1.0)
  w.Flush()
  w.Close(True)
  c.Checkpoint()
  s.Stop()
  gap, stop = [0.0], [False]
  def tick():
    last = time.time()
    while not stop[0]:
      time.sleep(0.002)
      now = time.time()
      gap[0] = max(gap[0], now - last)
      last = now
  t = threading.Thread(target=tick)
  t.start()
  time.sleep(0.1)
  gap[0] = 0.0
  start = time.time()
  s = r.Server(tables(), 19731, r.create_default_checkpointer(d, '', None))
  took = time.time() - start
  stop[0] = True
  t.join()
  s.Stop()
  print('constructor took %.3f s, other threads stalled for %.3f s' % (took, gap[0]))
  sys.exit(gap[0] > took / 2)
