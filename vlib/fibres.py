"""Helpers shared by the fibre propagation checks."""
import numpy as np

def pulse(N=64, win=4.0, wl=1550.0, AT=None, frep=100.0):
    from pynlo.light.PulseBase import Pulse
    p = Pulse()
    p.set_NPTS(N); p.set_time_window_ps(win); p.set_center_wavelength_nm(wl); p.set_frep_MHz(frep)
    p.set_AT(np.zeros(N, complex) if AT is None else np.array(AT, complex))
    return p

def fibre(length, betas=(0.0,), gamma=0.0, wl=1550.0, gain=0):
    from pynlo.media.fibers.fiber import FiberInstance
    f = FiberInstance()
    f.generate_fiber(length, wl, tuple(betas), gamma, gain=gain)
    return f
