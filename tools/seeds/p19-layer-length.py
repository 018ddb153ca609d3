PROP = 'P19'
NEEDS = 'a count larger than one'
BREAKS = 'layers are removed only in part when a count is larger than one'
EDITS = [('compiler/compiler.py', 'layer_length = sum(unitary_primitive_counts.values())', 'layer_length = len(unitary_primitive_counts)')]
DEMO = 'import numpy as np\nfrom stoqcompiler.unitary import (Unitary, UnitarySequence, UnitarySequenceEntry, UnitaryPrimitive, UnitaryDefinitions as D,\n    ParameterizedUnitary, ParameterizedUnitaryParameter, ParameterizedUnitaryDefinitions as PD)\nfrom stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm\nfrom stoqcompiler.compiler import Compiler, CompilerResult\nfrom stoqcompiler.verification import Verification\n\n\ndef refused(f, *a, **k):\n    try:\n        f(*a, **k)\n    except Exception:\n        return True\n    return False\n\n\nnp.random.seed(7)\n\np = [UnitaryPrimitive(D.t()), UnitaryPrimitive(D.h())]\nfor seed in range(40):\n    np.random.seed(seed)\n    r = Compiler(2, p).compile_layered(Unitary.random(2), {p[0]: 2, p[1]: 1}, 0.999999, 8)\n    assert r.compiled_sequence.get_length() % 3 == 0\n'
