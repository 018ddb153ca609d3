PROP = 'P11'
NEEDS = 'a table with a count of zero'
BREAKS = 'layer generation removes the zero counts from the table it was given'
EDITS = [('compiler/compiler.py', '        for primitive, count in unitary_primitive_counts.items():\n', '        for primitive in list(unitary_primitive_counts):\n            if unitary_primitive_counts[primitive] == 0:\n                del unitary_primitive_counts[primitive]\n        for primitive, count in unitary_primitive_counts.items():\n')]
DEMO = 'import numpy as np\nfrom stoqcompiler.unitary import (Unitary, UnitarySequence, UnitarySequenceEntry, UnitaryPrimitive, UnitaryDefinitions as D,\n    ParameterizedUnitary, ParameterizedUnitaryParameter, ParameterizedUnitaryDefinitions as PD)\nfrom stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm\nfrom stoqcompiler.compiler import Compiler, CompilerResult\nfrom stoqcompiler.verification import Verification\n\n\ndef refused(f, *a, **k):\n    try:\n        f(*a, **k)\n    except Exception:\n        return True\n    return False\n\n\nnp.random.seed(7)\n\np, q = UnitaryPrimitive(D.t()), UnitaryPrimitive(D.h())\nd = {p: 0, q: 2}\nVerification.generate_xeb_sequence(2, d, 3)\nassert len(d) == 2\n'
