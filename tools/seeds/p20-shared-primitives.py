PROP = 'P20'
NEEDS = 'the caller changes the list of primitives between two compilations'
BREAKS = 'a compiler keeps the list of primitives it was given'
EDITS = [('compiler/compiler.py', 'self.unitary_primitives = copy.deepcopy(unitary_primitives)', 'self.unitary_primitives = unitary_primitives')]
DEMO = 'import numpy as np\nfrom stoqcompiler.unitary import (Unitary, UnitarySequence, UnitarySequenceEntry, UnitaryPrimitive, UnitaryDefinitions as D,\n    ParameterizedUnitary, ParameterizedUnitaryParameter, ParameterizedUnitaryDefinitions as PD)\nfrom stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm\nfrom stoqcompiler.compiler import Compiler, CompilerResult\nfrom stoqcompiler.verification import Verification\n\n\ndef refused(f, *a, **k):\n    try:\n        f(*a, **k)\n    except Exception:\n        return True\n    return False\n\n\nnp.random.seed(7)\n\nps = [UnitaryPrimitive(D.t())]\nc = Compiler(2, ps)\nps.append(UnitaryPrimitive(D.h()))\nnames = {e.unitary.get_operation_name() for s in range(20) for e in c.compile(D.sigmax(), 0.9999, 20).compiled_sequence.get_sequence_entries()}\nassert names <= {"T"}, names\n'
