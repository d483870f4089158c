"""Freshly made input and control objects."""
from .base import Cmp

CLASSES = [('ParticleInput_C', 'Particle_Module'), ('DTcontrol_C', 'DT_Module'), ('HistoryInput_C', 'RecordedData_Module'), ('ParticleHistoryInput_C', 'RecordedData_Module'),
           ('FieldHistoryInput_C', 'RecordedData_Module'), ('TrajectoryInput_C', 'RecordedData_Module'), ('UserMeshInput2DCirc_C', 'UserMesh_y_Fields_FE2D_Module'),
           ('UserMeshInput_C', 'UserMesh_y_Fields_FE_XYZ_Module'), ('UserMeshInput1DS_C', 'UserMesh_y_Fields_Spherical1D_Module'), ('UserPoissonSolveInput1DS_C', 'UserMesh_y_Fields_Spherical1D_Module')]


def inputs():
    return [Cmp('py.%s.__init__' % c, 'py', m, c + '.__init__', 'inputs:Inputs.' + c.lower(), hints={'use_mpi': [False, True], 'arg1': [False, True]}, known={'Get_rank', 'Get_size', 'seed'}) for c, m in CLASSES]
