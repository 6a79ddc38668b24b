"""C02: time and frequency fields are one Fourier pair after every history."""
from vlib import pulsereplay as pr
OPS = ['new','setT','setC','setN','mutate','putAW','putAT','scaleAT','chirpW','chirpT','phaseW','rotate','clone','expand','setepp']
def run(c):
    c.assumptions += ['grids of 4..16 points whose size divides 16, 24 or 40; windows, centres, repetition rates and field scales drawn per history']
    pr.run(c, OPS, num=c.scale(60, 800), depth=c.scale(12, 18), only=['AW', 'AT', 'epp', 'T_ps', 'V_THz'], design=pr.design(c, OPS))
    # fine grids: the same fields on grids with up to 512 times as many bins
    pr.run(c, pr.LIFT, num=c.scale(20, 200), depth=c.scale(12, 18), only=['AW', 'AT', 'T_ps', 'V_THz', 'W_mks', 'wl_nm'], lift=[1, 2, 3, 4, 16, 64, 256, 512],
           views=('AT',), CS={240*k for k in (5000, 5001, 7400)} | {240*6000 + 77}, batches=1, design=[])
