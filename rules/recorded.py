"""Recorded trajectories and histories: containers and files."""
from .base import Cmp

KN = {'File', 'create_group', 'create_dataset', 'issubdtype'}
EF = {'issubdtype': dict(pure=True)}


def py(cls, q, spec, **kw):
    return Cmp('py.%s.%s' % (cls, q), 'py', 'RecordedData_Module', cls + '.' + q, 'recorded:Recorded.' + spec, known=KN, effects=EF, **kw)


def recorded():
    return [py('Trajectory_C', '__init__', 'trajectory', hints={'write_trajectory_files': [True, False, None], 'max_points': [None, 1, 3, 10]}),
            py('Trajectory_C', 'create_trajectory', 'create', hints={'arg3': ['charged', 'neutral', 'other']}), py('Trajectory_C', 'write_trajectories_to_files', 'write'),
            py('History_C', '__init__', 'history', hints={'max_points': [None, 1, 3, 10]}), py('ParticleHistory_C', '__init__', 'particle_history', hints={'max_points': [None, 1, 3, 10]})]


def plots():
    kn = {'figure', 'plot', 'title', 'xlabel', 'ylabel', 'grid', 'show', 'close'}

    def p(cls, q, spec, **kw):
        return Cmp('py.%s.%s' % (cls, q), 'py', 'RecordedData_Module', cls + '.' + q, 'recorded:Recorded.' + spec, known=kn, **kw)
    return [p('Trajectory_C', 'plot', 'plot', hints={'plot_vs_t_only': [False, True], 'arg1': [False, True]}),
            p('Trajectory_C', 'plot_trajectories_on_mesh', 'on_mesh'), p('ParticleHistory_C', 'plot', 'plot_histories')]
