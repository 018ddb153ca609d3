PROP = 'P01'
NEEDS = 'a matrix with unit rows that are not orthogonal'
BREAKS = 'the unitarity check compares row norms only'
EDITS = [('unitary/unitary.py', '        assert np.allclose(matrix @ matrix.T.conj(), np.identity(dimension)), \\\n            matrix @ matrix.T.conj()\n', '        assert np.allclose(\n            np.linalg.norm(matrix, axis=1), np.ones(dimension)), matrix\n')]
DEMO = 'import numpy as np\nfrom stoqcompiler.unitary import (Unitary, UnitarySequence, UnitarySequenceEntry, UnitaryPrimitive, UnitaryDefinitions as D,\n    ParameterizedUnitary, ParameterizedUnitaryParameter, ParameterizedUnitaryDefinitions as PD)\nfrom stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm\nfrom stoqcompiler.compiler import Compiler, CompilerResult\nfrom stoqcompiler.verification import Verification\n\n\ndef refused(f, *a, **k):\n    try:\n        f(*a, **k)\n    except Exception:\n        return True\n    return False\n\n\nnp.random.seed(7)\nm = np.array([[1, 0], [0.6, 0.8]])\nassert refused(Unitary, 2, m)\n'
