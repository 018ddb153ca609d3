PROP = 'P26'
NEEDS = 'a placement list with a negative qubit after the first'
BREAKS = 'only the first qubit of a placement is checked'
EDITS = [('unitary/unitary_primitive.py', '                np.min(apply_to) >= 0\n', '                apply_to[0] >= 0\n')]
DEMO = 'import numpy as np\nfrom stoqcompiler.unitary import (Unitary, UnitarySequence, UnitarySequenceEntry, UnitaryPrimitive, UnitaryDefinitions as D,\n    ParameterizedUnitary, ParameterizedUnitaryParameter, ParameterizedUnitaryDefinitions as PD)\nfrom stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm\nfrom stoqcompiler.compiler import Compiler, CompilerResult\nfrom stoqcompiler.verification import Verification\n\n\ndef refused(f, *a, **k):\n    try:\n        f(*a, **k)\n    except Exception:\n        return True\n    return False\n\n\nnp.random.seed(7)\nassert refused(UnitaryPrimitive, D.cnot(), [[0, 1], [1, -1]])\n'
