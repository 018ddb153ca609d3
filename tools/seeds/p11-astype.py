PROP = 'P11'
NEEDS = 'a complex128 matrix with very small entries'
BREAKS = 'Unitary zeroes the small entries of the array it is given'
EDITS = [('unitary/unitary.py', 'matrix = matrix.astype(np.complex128)', 'matrix = matrix.astype(np.complex128, copy=False)')]
DEMO = 'import numpy as np\nfrom stoqcompiler.unitary import (Unitary, UnitarySequence, UnitarySequenceEntry, UnitaryPrimitive, UnitaryDefinitions as D,\n    ParameterizedUnitary, ParameterizedUnitaryParameter, ParameterizedUnitaryDefinitions as PD)\nfrom stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm\nfrom stoqcompiler.compiler import Compiler, CompilerResult\nfrom stoqcompiler.verification import Verification\n\n\ndef refused(f, *a, **k):\n    try:\n        f(*a, **k)\n    except Exception:\n        return True\n    return False\n\n\nnp.random.seed(7)\n\nm = np.eye(2, dtype=np.complex128)\nm[0, 1] = 1e-14\nUnitary(2, m)\nassert m[0, 1] == 1e-14, m\n'
