PROP = 'P22'
NEEDS = 'a term whose eigenvalue of largest magnitude is negative'
BREAKS = 'the strength of a term is its largest eigenvalue'
EDITS = [('hamiltonian/hamiltonian_term.py', '        _, s, _ = np.linalg.svd(matrix)\n        self.coefficient = np.max(s)\n', '        self.coefficient = np.max(np.linalg.eigvalsh(matrix))\n')]
DEMO = 'import numpy as np\nfrom stoqcompiler.unitary import (Unitary, UnitarySequence, UnitarySequenceEntry, UnitaryPrimitive, UnitaryDefinitions as D,\n    ParameterizedUnitary, ParameterizedUnitaryParameter, ParameterizedUnitaryDefinitions as PD)\nfrom stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm\nfrom stoqcompiler.compiler import Compiler, CompilerResult\nfrom stoqcompiler.verification import Verification\n\n\ndef refused(f, *a, **k):\n    try:\n        f(*a, **k)\n    except Exception:\n        return True\n    return False\n\n\nnp.random.seed(7)\nt = HamiltonianTerm(np.diag([1.0, -3.0]))\nassert abs(t.get_coefficient() - 3) < 1e-9\n'
