PROP = 'P03'
NEEDS = 'operations with off-diagonal overlap whose entries cancel'
BREAKS = 'closeness without a threshold uses an absolute tolerance a hundred times wider'
EDITS = [('unitary/unitary.py', '        return np.isclose(distance, 0.0)', '        return np.isclose(distance, 0.0, atol=1e-4)')]
DEMO = 'import numpy as np\nfrom stoqcompiler.unitary import (Unitary, UnitarySequence, UnitarySequenceEntry, UnitaryPrimitive, UnitaryDefinitions as D,\n    ParameterizedUnitary, ParameterizedUnitaryParameter, ParameterizedUnitaryDefinitions as PD)\nfrom stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm\nfrom stoqcompiler.compiler import Compiler, CompilerResult\nfrom stoqcompiler.verification import Verification\n\n\ndef refused(f, *a, **k):\n    try:\n        f(*a, **k)\n    except Exception:\n        return True\n    return False\n\n\nnp.random.seed(7)\na = D.rz(0.01)\nb = D.rz(0.02)\nassert a.distance_from(b) > 1e-6\nassert not a.close_to(b)\n'
