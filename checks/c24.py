"""C24: average frequency, autocorrelation and spectrogram are the documented functionals of the field."""
from vlib import pulsereplay as pr
OPS = ['new','setT','setC','setN','putAW','putAT','chirpW','offset','scaleAT','setepp','clone','avg','autoc','xfrog','sfrog','expand','mutate']
def run(c):
    c.assumptions += ['grids of 4..16 points (autocorrelation up to 8, spectrogram 4 or 6, SHG up to 8)']
    pr.run(c, ['putAT','setC','sfrog','xfrog'], num=c.scale(30, 300), depth=10, only=['AW', 'AT'],
           P=1, Ms=(16, 24), NS={4, 6, 8}, CS={240*k for k in (9, 10, 13, 24, 31)}, batches=c.scale(2, 6), design=[])
    pr.run(c, OPS, num=c.scale(40, 600), depth=c.scale(14, 18), only=['AW', 'AT'], views=('AT', 'epp'), P=2,
           Ms=(16, 24), NS={4, 6, 8}, design=[])
