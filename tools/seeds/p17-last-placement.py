PROP = 'P17'
NEEDS = 'a primitive with several allowed placements'
BREAKS = 'the last of the allowed placements is never chosen'
EDITS = [('compiler/compiler.py', 'np.random.choice(len(allowed_apply_to))]', 'np.random.choice(max(1, len(allowed_apply_to) - 1))]')]
DEMO = 'import numpy as np\nfrom stoqcompiler.unitary import (Unitary, UnitarySequence, UnitarySequenceEntry, UnitaryPrimitive, UnitaryDefinitions as D,\n    ParameterizedUnitary, ParameterizedUnitaryParameter, ParameterizedUnitaryDefinitions as PD)\nfrom stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm\nfrom stoqcompiler.compiler import Compiler, CompilerResult\nfrom stoqcompiler.verification import Verification\n\n\ndef refused(f, *a, **k):\n    try:\n        f(*a, **k)\n    except Exception:\n        return True\n    return False\n\n\nnp.random.seed(7)\n\np = [UnitaryPrimitive(D.t(), [[0], [1]])]\ns = {tuple(Compiler.create_random_sequence_entry(4, p).get_apply_to()) for _ in range(200)}\nassert s == {(0,), (1,)}, s\n'
