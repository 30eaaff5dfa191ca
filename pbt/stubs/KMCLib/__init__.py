"""Stand-in for the KMCLibX engine: records what it is given, simulates nothing."""
__all__ = ['KMCProcess', 'KMCInteractions', 'KMCLattice', 'KMCUnitCell', 'KMCConfiguration',
           'KMCSitesMap', 'KMCLatticeModel', 'KMCControlParameters', 'KMCAnalysisPlugin']

RUNS = []        # every KMCLatticeModel.run call


class _Record(object):
    def __init__(self, **kwargs):
        self.kwargs = kwargs

    def _script(self, variable_name=None):
        """Python code that creates an equal object."""
        return '%s = %s\n' % (variable_name or type(self).__name__.lower(), _text(self))

    def __eq__(self, other):
        return type(self) is type(other) and _text(self) == _text(other)

    __hash__ = None


def _text(v):
    if hasattr(v, 'tolist'):
        v = v.tolist()
    if isinstance(v, _Record):
        return '%s(%s)' % (type(v).__name__, ', '.join('%s=%s' % (k, _text(w)) for k, w in v.kwargs.items()))
    if isinstance(v, list):
        return '[%s]' % ', '.join(_text(w) for w in v)
    if isinstance(v, tuple):
        return '(%s)' % ''.join(_text(w) + ', ' for w in v)
    if isinstance(v, float):
        return repr(float(v))
    return repr(v)


class KMCProcess(_Record):
    def __init__(self, coordinates, elements_before, elements_after, basis_sites, rate_constant,
                 fast=False, redist=False, redist_species=None):
        _Record.__init__(self, coordinates=coordinates, elements_before=elements_before,
                         elements_after=elements_after, basis_sites=basis_sites,
                         rate_constant=rate_constant, fast=fast, redist=redist,
                         redist_species=redist_species)


class KMCInteractions(_Record):
    def __init__(self, processes, implicit_wildcards=False):
        _Record.__init__(self, processes=processes, implicit_wildcards=implicit_wildcards)


class KMCUnitCell(_Record):
    def __init__(self, cell_vectors, basis_points):
        _Record.__init__(self, cell_vectors=cell_vectors, basis_points=basis_points)


class KMCLattice(_Record):
    def __init__(self, unit_cell, repetitions, periodic):
        _Record.__init__(self, unit_cell=unit_cell, repetitions=repetitions, periodic=periodic)


class KMCConfiguration(_Record):
    def __init__(self, lattice, types, possible_types):
        _Record.__init__(self, lattice=lattice, types=types, possible_types=possible_types)

    def types(self):
        return list(self.kwargs['types'])


class KMCSitesMap(_Record):
    def __init__(self, lattice, types, possible_types):
        _Record.__init__(self, lattice=lattice, types=types, possible_types=possible_types)

    def types(self):
        return list(self.kwargs['types'])


class KMCControlParameters(_Record):
    pass


class KMCLatticeModel(_Record):
    def __init__(self, configuration, sitesmap, interactions):
        _Record.__init__(self, configuration=configuration, sitesmap=sitesmap,
                         interactions=interactions)

    def run(self, control_parameters=None, trajectory_filename=None, trajectory_type='lattice',
            analysis=None):
        RUNS.append(dict(model=self, control_parameters=control_parameters,
                         trajectory_filename=trajectory_filename,
                         trajectory_type=trajectory_type, analysis=analysis))


class KMCAnalysisPlugin(object):
    def __init__(self):
        pass

    def setup(self, step, time, configuration, interactions):
        pass

    def registerStep(self, step, time, configuration, interactions):
        pass

    def finalize(self):
        pass
