"""C01: every grid view of every pulse after every history of setters, reads and writes into returned arrays."""
from vlib import pulsereplay as pr
OPS = ['new','readblank','drop','setN','setT','setC','setFr','mutate','putAW','expand','rotate','subset','interp','clone','export','import','badexpand','badsubset']
def run(c):
    c.assumptions += ['grids of 4..16 points whose size divides 16, 24 or 40; windows, centres, repetition rates and field scales drawn per history']
    pr.run(c, OPS, num=c.scale(60, 800), depth=c.scale(14, 20), views=(), design=pr.design(c, OPS))
    # fine grids: the same pulses on grids with up to 512 times as many bins
    pr.run(c, pr.LIFT, num=c.scale(15, 200), depth=c.scale(12, 18), lift=[1, 2, 3, 4, 16, 64, 256, 512], views=(), CS={240*k for k in (5000, 5001, 7400)} | {240*6000 + 77}, batches=1, design=[])
