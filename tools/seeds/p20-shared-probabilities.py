PROP = 'P20'
NEEDS = 'the caller changes its list of probabilities between two compilations'
BREAKS = 'a compiler keeps the list of probabilities it was given'
EDITS = [('compiler/compiler.py', '        self.unitary_primitive_probabilities = copy.deepcopy(\n            unitary_primitive_probabilities)\n', '        self.unitary_primitive_probabilities = unitary_primitive_probabilities\n')]
DEMO = 'import numpy as np\nfrom stoqcompiler.unitary import (Unitary, UnitarySequence, UnitarySequenceEntry, UnitaryPrimitive, UnitaryDefinitions as D,\n    ParameterizedUnitary, ParameterizedUnitaryParameter, ParameterizedUnitaryDefinitions as PD)\nfrom stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm\nfrom stoqcompiler.compiler import Compiler, CompilerResult\nfrom stoqcompiler.verification import Verification\n\n\ndef refused(f, *a, **k):\n    try:\n        f(*a, **k)\n    except Exception:\n        return True\n    return False\n\n\nnp.random.seed(7)\n\nps = [UnitaryPrimitive(D.t()), UnitaryPrimitive(D.sigmax())]\nprob = [1.0, 0.0]\nc = Compiler(2, ps, prob)\nprob[0], prob[1] = 0.0, 1.0\nnames = set()\nfor k in range(20):\n    r = c.compile(D.h(), 1.0, 5)\n    names |= {e.unitary.get_operation_name() for e in r.compiled_sequence.get_sequence_entries()}\nassert names <= {"T"}, names\n'
