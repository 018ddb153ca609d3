PROP = 'P13'
NEEDS = 'an inverted operation without parameters applied to a sequence'
BREAKS = 'the inverse mark is only shown next to parameters'
EDITS = [('unitary/unitary.py', "        if self.is_inverse:\n            display_name += '†'", "        if self.is_inverse and not display_name.endswith(']'):\n            display_name += '†'")]
DEMO = 'import numpy as np\nfrom stoqcompiler.unitary import (Unitary, UnitarySequence, UnitarySequenceEntry, UnitaryPrimitive, UnitaryDefinitions as D,\n    ParameterizedUnitary, ParameterizedUnitaryParameter, ParameterizedUnitaryDefinitions as PD)\nfrom stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm\nfrom stoqcompiler.compiler import Compiler, CompilerResult\nfrom stoqcompiler.verification import Verification\n\n\ndef refused(f, *a, **k):\n    try:\n        f(*a, **k)\n    except Exception:\n        return True\n    return False\n\n\nnp.random.seed(7)\nx = D.t()\ne = UnitarySequenceEntry(x.inverse(), [0]).get_full_unitary(4)\nassert e.get_display_name() != UnitarySequenceEntry(x, [0]).get_full_unitary(4).get_display_name()\n'
