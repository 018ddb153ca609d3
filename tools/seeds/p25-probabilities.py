PROP = 'P25'
NEEDS = 'probabilities that differ'
BREAKS = 'the inverse is compiled without the configured probabilities'
EDITS = [('verification/verification.py', '            unitary_primitives,\n            unitary_primitive_probabilities,\n            append_probability=stoq_append_probability)', '            unitary_primitives,\n            append_probability=stoq_append_probability)')]
DEMO = 'import numpy as np\nfrom stoqcompiler.unitary import (Unitary, UnitarySequence, UnitarySequenceEntry, UnitaryPrimitive, UnitaryDefinitions as D,\n    ParameterizedUnitary, ParameterizedUnitaryParameter, ParameterizedUnitaryDefinitions as PD)\nfrom stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm\nfrom stoqcompiler.compiler import Compiler, CompilerResult\nfrom stoqcompiler.verification import Verification\n\n\ndef refused(f, *a, **k):\n    try:\n        f(*a, **k)\n    except Exception:\n        return True\n    return False\n\n\nnp.random.seed(7)\n\nnp.random.seed(5)\np = [UnitaryPrimitive(D.t()), UnitaryPrimitive(D.h())]\nr = Verification.generate_rav_sequence(2, p, 3, 0.9999999, unitary_primitive_probabilities=[1.0, 0.0], max_step_count=60)\nassert all(e.unitary.get_operation_name() == "T" for e in r.compiled_sequence.get_sequence_entries())\n'
