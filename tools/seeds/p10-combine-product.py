PROP = 'P10'
NEEDS = 'at least three combined sequences'
BREAKS = 'the product of combined sequences multiplies in the wrong order after the second'
EDITS = [('unitary/unitary_sequence.py', '            new_product = new_product.left_multiply(sequence.product())', '            if len(new_sequence_entries) <= sequences[0].get_length() + \\\n                    sequences[-1].get_length():\n                new_product = new_product.left_multiply(sequence.product())\n            else:\n                new_product = new_product.right_multiply(sequence.product())')]
DEMO = 'import numpy as np\nfrom stoqcompiler.unitary import (Unitary, UnitarySequence, UnitarySequenceEntry, UnitaryPrimitive, UnitaryDefinitions as D,\n    ParameterizedUnitary, ParameterizedUnitaryParameter, ParameterizedUnitaryDefinitions as PD)\nfrom stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm\nfrom stoqcompiler.compiler import Compiler, CompilerResult\nfrom stoqcompiler.verification import Verification\n\n\ndef refused(f, *a, **k):\n    try:\n        f(*a, **k)\n    except Exception:\n        return True\n    return False\n\n\nnp.random.seed(7)\ndef q(g):\n    return UnitarySequence(2, [UnitarySequenceEntry(g, [0])])\n\n\nc = UnitarySequence.combine(q(D.h()), q(D.t()), q(D.rx(0.3)))\nassert c.product().close_to(UnitarySequence(2, c.get_sequence_entries()).product())\n'
