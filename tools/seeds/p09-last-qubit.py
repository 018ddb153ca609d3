PROP = 'P09'
NEEDS = 'a qubit list that is not sorted'
BREAKS = 'only the last listed qubit is compared with the system size'
EDITS = [('unitary/unitary_sequence.py', 'assert 2**(np.max(sequence_entry.get_apply_to()) + 1) <= self.dimension', 'assert 2**(sequence_entry.get_apply_to()[-1] + 1) <= self.dimension')]
DEMO = 'import numpy as np\nfrom stoqcompiler.unitary import (Unitary, UnitarySequence, UnitarySequenceEntry, UnitaryPrimitive, UnitaryDefinitions as D,\n    ParameterizedUnitary, ParameterizedUnitaryParameter, ParameterizedUnitaryDefinitions as PD)\nfrom stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm\nfrom stoqcompiler.compiler import Compiler, CompilerResult\nfrom stoqcompiler.verification import Verification\n\n\ndef refused(f, *a, **k):\n    try:\n        f(*a, **k)\n    except Exception:\n        return True\n    return False\n\n\nnp.random.seed(7)\ns = UnitarySequence(4)\ne = UnitarySequenceEntry(D.cnot(), [2, 0])\nassert refused(s.append_last, e)\n'
