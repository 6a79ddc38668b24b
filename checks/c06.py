"""C06: energy is the trapezoid integral of the power and can be set exactly."""
from vlib import pulsereplay as pr
OPS = ['new','setT','setC','setFr','putAW','putAT','scaleAT','chirpW','chirpT','offset','setepp','expand','clone','filter']
def run(c):
    c.assumptions += ['grids of 4..16 points whose size divides 16, 24 or 40; windows, centres, repetition rates and field scales drawn per history']
    pr.run(c, OPS, num=c.scale(60, 800), depth=c.scale(12, 18), only=['epp', 'AT', 'AW', 'dT_ps'], design=pr.design(c, OPS))
