PROP = 'P22'
NEEDS = 'three or more terms of which the third has another dimension'
BREAKS = 'only the first two terms are compared in dimension'
EDITS = [('hamiltonian/hamiltonian.py', '            term.get_dimension() == self.dimension for term in terms])', '            term.get_dimension() == self.dimension for term in terms[:2]])')]
DEMO = 'import numpy as np\nfrom stoqcompiler.unitary import (Unitary, UnitarySequence, UnitarySequenceEntry, UnitaryPrimitive, UnitaryDefinitions as D,\n    ParameterizedUnitary, ParameterizedUnitaryParameter, ParameterizedUnitaryDefinitions as PD)\nfrom stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm\nfrom stoqcompiler.compiler import Compiler, CompilerResult\nfrom stoqcompiler.verification import Verification\n\n\ndef refused(f, *a, **k):\n    try:\n        f(*a, **k)\n    except Exception:\n        return True\n    return False\n\n\nnp.random.seed(7)\n\nX = np.array([[0, 1], [1, 0]])\nt = HamiltonianTerm(1.0 * X)\nassert refused(Hamiltonian, [t, t, HamiltonianTerm(1.0 * np.kron(X, X))])\n'
