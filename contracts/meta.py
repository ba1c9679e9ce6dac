"""Level and assumptions per property."""
META = {'C%02d' % k: dict(level='other', assumptions=[]) for k in range(1, 35)}
META['C18'].update(wall=420.)
META['C23'].update(wall=400.)
META['C28'].update(time=40.)
META['C29'].update(assumptions=['Qt widgets and signals only show what they are told; the worker can be interrupted where it sleeps and at its calls of the autotuner and the history, not between other statements'])
META['C30'].update(assumptions=['meaning of MATLAB index expressions (integers, end, + - *, ranges); that end may be used inside the arguments of subsref is not judged'])
META['C32'].update(assumptions=['the MATLAB engine and the routines of +qtune do what their names say (they are recorders here); typecast, reshape and transpose as MATLAB documents them'])
META['C33'].update(assumptions=['the analysis done inside MATLAB'])
for _k in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C20', 'C23', 'C25', 'C26'):     # every claim is proved for all inputs, names and numbers; other scenarios are cross-checks
    META[_k].update(level='proof')
NOT_APPLICABLE = {}
