PROP = 'P18'
NEEDS = 'an append probability of zero'
BREAKS = 'an append probability of zero is taken for the default'
EDITS = [('compiler/compiler.py', 'self.append_probability = append_probability', 'self.append_probability = append_probability or 0.5')]
DEMO = 'import numpy as np\nfrom stoqcompiler.unitary import (Unitary, UnitarySequence, UnitarySequenceEntry, UnitaryPrimitive, UnitaryDefinitions as D,\n    ParameterizedUnitary, ParameterizedUnitaryParameter, ParameterizedUnitaryDefinitions as PD)\nfrom stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm\nfrom stoqcompiler.compiler import Compiler, CompilerResult\nfrom stoqcompiler.verification import Verification\n\n\ndef refused(f, *a, **k):\n    try:\n        f(*a, **k)\n    except Exception:\n        return True\n    return False\n\n\nnp.random.seed(7)\n\nc = Compiler(2, [UnitaryPrimitive(D.t())], append_probability=0.0)\nr = c.compile(D.sigmax(), 0.99, 40)\nassert r.compiled_sequence.get_length() == 0\n'
