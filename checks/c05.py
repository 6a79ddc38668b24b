"""C05: clones, dictionaries and FROG files reproduce the pulse and stay independent."""
from vlib import pulsereplay as pr
OPS = ['new','setN','setT','setC','setFr','mutate','putAW','putAT','chirpW','scaleAT','clone','create','export','import','frog','frogfine','expand','subset','drop']
def run(c):
    c.assumptions += ['grids of 4..16 points whose size divides 16, 24 or 40; windows, centres, repetition rates and field scales drawn per history']
    pr.run(c, OPS, num=c.scale(70, 800), depth=c.scale(14, 18), design=pr.design(c, OPS))
    # fine grids: the same pulses on grids with up to 512 times as many bins
    pr.run(c, ['clone', 'create', 'export', 'import', 'setFr', 'setT', 'putAW', 'new', 'subset', 'mutate', 'scaleAT'], num=c.scale(15, 200), depth=c.scale(12, 18), lift=[1, 2, 3, 4, 16, 64, 256, 512],
           CS={240*k for k in (5000, 5001, 7400)} | {240*6000 + 77}, views=('AT',), batches=1, design=[])
