PROPS = {
    'A01': dict(harness=['aperture.cpp']),
    'B01': dict(harness=['bunch_stats.cpp']),
    'G01': dict(harness=['transform.cpp']),
    'L01': dict(harness=['rmap.cpp']),
    'M01': dict(harness=['rmaps_lib.cpp']),
    'A02': dict(harness=['interp_aperture.cpp']),
    'A03': dict(harness=['collimator_aperture.cpp']),
    'I01': dict(harness=['symplectic.cpp']),
    'M02': dict(harness=['matrices.cpp']),
    'I02': dict(harness=['thinlens.cpp', 'rfsteps.cpp']),
    'I03': dict(harness=['symplectic_step.cpp']),
    'I04': dict(harness=['transport2.cpp']),
    'I05': dict(harness=['transport_step.cpp']),
    'F01': dict(harness=['field.cpp']),
    'T01': dict(harness=['tracking.cpp'], bounded=['process steps: at most three steps and two processes per component', 'lines and rings: two frames', 'priorities: four processes']),
    'G02': dict(harness=['frames.cpp'], bounded=['sequence geometry: three frames (straight, bend, straight)', 'nests of frames: two levels']),
    'B02': dict(harness=['bunch_ref.cpp', 'bunch_frame.cpp']),
    'B03': dict(harness=['beam.cpp', 'beam_back.cpp'], bounded=['generated bunches: four particles, at most one candidate refused']),
    'C01': dict(harness=['collimation.cpp'], bounded=['collimated bunches: three particles']),
    'E01': dict(harness=['smp_bunch.cpp']),
    'E02': dict(harness=['smp_step.cpp']),
    'G03': dict(harness=['names.cpp', 'model.cpp'], bounded=['name patterns: all patterns of at most five characters of two letters and the wild card with names of at most four, further ones of up to eight with names of up to five', 'models of four components']),
    'X01': dict(harness=['mad.cpp'], bounded=['tables of at most seven rows']),
    'O01': dict(harness=['optics.cpp', 'la.cpp'], bounded=['lines of up to three components, tables of up to four rows', 'inversion and factorisation: matrices of two rows, of three with one of any values']),
    'H01': dict(harness=['hel.cpp']),
    'Y01': dict(harness=['sr.cpp'], bounded=['steps: up to three per magnet', 'photons: up to two per step']),
    'W02': dict(harness=['wake.cpp', 'smp_wake.cpp'], bounded=['cutting into slices: three particles, three slices', 'wake at the boundaries: four slices', 'macro-particles: three']),
    'K01': dict(harness=['controls.cpp'], bounded=['klystrons of up to three cavities', 'channel arrays of three', 'profiles of two particles']),
    'C02': dict(harness=['lossmap.cpp'], bounded=['loss maps: three losses in two elements', 'places: within the first 40 cm of an element']),
}
