PROP = 'P12'
NEEDS = 'parameters with equal values'
BREAKS = 'JAQAL output drops parameters with repeated values'
EDITS = [('unitary/unitary.py', 'as_decimal(v[0]) for k, v in self.parameter_dict.items())\n\n        qubits = ""\n        apply_to_qubits = self.apply_to\n        if len(apply_to_qubits) == 0:\n            num_qubits = int(np.log2(self.get_dimension()))\n            apply_to_qubits = list(range(num_qubits))\n\n        qubits = " "', 'as_decimal(v) for v in dict.fromkeys(\n                    v[0] for v in self.parameter_dict.values()))\n\n        qubits = ""\n        apply_to_qubits = self.apply_to\n        if len(apply_to_qubits) == 0:\n            num_qubits = int(np.log2(self.get_dimension()))\n            apply_to_qubits = list(range(num_qubits))\n\n        qubits = " "')]
DEMO = 'import numpy as np\nfrom stoqcompiler.unitary import (Unitary, UnitarySequence, UnitarySequenceEntry, UnitaryPrimitive, UnitaryDefinitions as D,\n    ParameterizedUnitary, ParameterizedUnitaryParameter, ParameterizedUnitaryDefinitions as PD)\nfrom stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm\nfrom stoqcompiler.compiler import Compiler, CompilerResult\nfrom stoqcompiler.verification import Verification\n\n\ndef refused(f, *a, **k):\n    try:\n        f(*a, **k)\n    except Exception:\n        return True\n    return False\n\n\nnp.random.seed(7)\nj = D.rphi(0.5, 0.5).get_jaqal()\nassert j.split()[-2:] == ["0.5", "0.5"], j\n'
