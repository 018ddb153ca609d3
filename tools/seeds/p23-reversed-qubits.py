PROP = 'P23'
NEEDS = 'a Hamiltonian on several qubits that is not symmetric under reversal'
BREAKS = 'the ideal sequence acts on the qubits in reverse order'
EDITS = [('hamiltonian/hamiltonian.py', '        u = self.get_time_evolution_operator(time_per_step)\n        apply_to = list(range(self.get_qubit_count()))', '        u = self.get_time_evolution_operator(time_per_step)\n        apply_to = list(reversed(range(self.get_qubit_count())))')]
DEMO = 'import numpy as np\nfrom stoqcompiler.unitary import (Unitary, UnitarySequence, UnitarySequenceEntry, UnitaryPrimitive, UnitaryDefinitions as D,\n    ParameterizedUnitary, ParameterizedUnitaryParameter, ParameterizedUnitaryDefinitions as PD)\nfrom stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm\nfrom stoqcompiler.compiler import Compiler, CompilerResult\nfrom stoqcompiler.verification import Verification\n\n\ndef refused(f, *a, **k):\n    try:\n        f(*a, **k)\n    except Exception:\n        return True\n    return False\n\n\nnp.random.seed(7)\n\nh = Hamiltonian([HamiltonianTerm(np.kron(np.array([[1, 0], [0, -1]]), np.eye(2)))])\nassert h.get_ideal_sequence(1.0, 2).product().close_to(h.get_time_evolution_operator(1.0))\n'
