"""C04: grid-changing operations keep every amplitude where the operation documents it."""
from vlib import pulsereplay as pr
OPS = ['new','setT','setC','putAW','putAT','expand','badexpand','rotate','filter','subset','badsubset','interp','offset','chirpW']
def run(c):
    c.assumptions += ['grids of 4..16 points whose size divides 16, 24 or 40; windows, centres, repetition rates and field scales drawn per history']
    pr.run(c, OPS, num=c.scale(60, 800), depth=c.scale(10, 16), design=pr.design(c, OPS))
    # large grids, for the operations that only move amplitudes about
    pr.run(c, ['new','setT','setC','putAW','rotate','filter','subset','badsubset','interp','badexpand','offset','phaseW'], num=c.scale(8, 100), depth=c.scale(10, 16), Ms=(16,), NS={64, 96, 200},
           CS={240*k for k in (500, 501, 740)} | {240*600 + 77, 240*500 + 120}, views=(), batches=1, design=[])
