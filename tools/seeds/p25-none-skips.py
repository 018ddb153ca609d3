PROP = 'P25'
NEEDS = 'a threshold of none'
BREAKS = 'a verification sequence with threshold none skips the inverse'
EDITS = [('verification/verification.py', '        if threshold == 0.0 or max_step_count == 0:\n            return CompilerResult(random_sequence, [], 0.0)\n\n        # Calculate the product of this sequence and invert it\n        target_unitary = random_sequence.product().inverse()\n\n        # Use Compiler to compile a new sequence implementing the inverse\n        compiler = Compiler(\n            dimension,\n            unitary_primitives,\n', '        if not threshold or max_step_count == 0:\n            return CompilerResult(random_sequence, [], 0.0)\n\n        # Calculate the product of this sequence and invert it\n        target_unitary = random_sequence.product().inverse()\n\n        # Use Compiler to compile a new sequence implementing the inverse\n        compiler = Compiler(\n            dimension,\n            unitary_primitives,\n')]
DEMO = 'import numpy as np\nfrom stoqcompiler.unitary import (Unitary, UnitarySequence, UnitarySequenceEntry, UnitaryPrimitive, UnitaryDefinitions as D,\n    ParameterizedUnitary, ParameterizedUnitaryParameter, ParameterizedUnitaryDefinitions as PD)\nfrom stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm\nfrom stoqcompiler.compiler import Compiler, CompilerResult\nfrom stoqcompiler.verification import Verification\n\n\ndef refused(f, *a, **k):\n    try:\n        f(*a, **k)\n    except Exception:\n        return True\n    return False\n\n\nnp.random.seed(7)\n\np = UnitaryPrimitive(PD.rotation_xy())\nr = Verification.generate_rav_sequence(2, [p], 3, None, max_step_count=9)\nassert len(r.cost_by_step) == 9, r.cost_by_step\n'
