PROP = 'P05'
NEEDS = 'a parameter whose minimum is not zero'
BREAKS = 'random parameter values are scaled by the maximum instead of the width'
EDITS = [('unitary/parameterized_unitary_parameter.py', '* (self.max_value - self.min_value)) + self.min_value', '* self.max_value) + self.min_value')]
DEMO = 'import numpy as np\nfrom stoqcompiler.unitary import (Unitary, UnitarySequence, UnitarySequenceEntry, UnitaryPrimitive, UnitaryDefinitions as D,\n    ParameterizedUnitary, ParameterizedUnitaryParameter, ParameterizedUnitaryDefinitions as PD)\nfrom stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm\nfrom stoqcompiler.compiler import Compiler, CompilerResult\nfrom stoqcompiler.verification import Verification\n\n\ndef refused(f, *a, **k):\n    try:\n        f(*a, **k)\n    except Exception:\n        return True\n    return False\n\n\nnp.random.seed(7)\np = ParameterizedUnitaryParameter("t", 1.0, 3.0, False)\nassert all(p.is_valid(p.random_value()) for _ in range(200))\n'
