PROP = 'P06'
NEEDS = 'a gate on three qubits listed in a cyclic order, or on non-leading qubits of a larger system'
BREAKS = 'the qubit permutation is inverted'
EDITS = [('unitary/unitary_sequence_entry.py', '            permute_order[apply] = next_index\n            next_index += 1\n        for i in range(len(permute_order)):\n            if permute_order[i] is None:\n                permute_order[i] = next_index\n                next_index += 1\n', '            permute_order[next_index] = apply\n            next_index += 1\n        for i in range(num_system_qubits):\n            if i not in self.get_apply_to():\n                permute_order[next_index] = i\n                next_index += 1\n')]
DEMO = 'import numpy as np\nfrom stoqcompiler.unitary import (Unitary, UnitarySequence, UnitarySequenceEntry, UnitaryPrimitive, UnitaryDefinitions as D,\n    ParameterizedUnitary, ParameterizedUnitaryParameter, ParameterizedUnitaryDefinitions as PD)\nfrom stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm\nfrom stoqcompiler.compiler import Compiler, CompilerResult\nfrom stoqcompiler.verification import Verification\n\n\ndef refused(f, *a, **k):\n    try:\n        f(*a, **k)\n    except Exception:\n        return True\n    return False\n\n\nnp.random.seed(7)\na, b, c = D.sigmax(), D.t(), D.sigmaz()\ng = a.tensor(b).tensor(c)\ngot = UnitarySequenceEntry(g, [1, 2, 0]).get_full_unitary(8)\nassert got.close_to(c.tensor(a).tensor(b))\n'
