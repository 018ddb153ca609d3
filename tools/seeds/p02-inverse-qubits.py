PROP = 'P02'
NEEDS = 'the inverse of an operation with a qubit list'
BREAKS = 'the inverse forgets the qubits of the operation'
EDITS = [('unitary/unitary.py', '            self.get_operation_name(), self.parameter_dict,\n            is_inverse=is_inverse, apply_to=self.apply_to)', '            self.get_operation_name(), self.parameter_dict,\n            is_inverse=is_inverse)')]
DEMO = 'import numpy as np\nfrom stoqcompiler.unitary import (Unitary, UnitarySequence, UnitarySequenceEntry, UnitaryPrimitive, UnitaryDefinitions as D,\n    ParameterizedUnitary, ParameterizedUnitaryParameter, ParameterizedUnitaryDefinitions as PD)\nfrom stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm\nfrom stoqcompiler.compiler import Compiler, CompilerResult\nfrom stoqcompiler.verification import Verification\n\n\ndef refused(f, *a, **k):\n    try:\n        f(*a, **k)\n    except Exception:\n        return True\n    return False\n\n\nnp.random.seed(7)\n\nu = Unitary(4, D.cnot().get_matrix(), "CNOT", apply_to=[1, 0])\nassert u.inverse().apply_to == [1, 0]\n'
