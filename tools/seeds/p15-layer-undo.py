PROP = 'P15'
NEEDS = 'a rejected removal of a layer of more than one gate'
BREAKS = 'undo after a rejected removal of the last layer brings back one gate only'
EDITS = [('compiler/compiler.py', 'compiled_sequence.remove_last(save_undo=(i == 0))', 'compiled_sequence.remove_last(\n                    save_undo=(i == layer_length - 1))')]
DEMO = 'import numpy as np\nfrom stoqcompiler.unitary import (Unitary, UnitarySequence, UnitarySequenceEntry, UnitaryPrimitive, UnitaryDefinitions as D,\n    ParameterizedUnitary, ParameterizedUnitaryParameter, ParameterizedUnitaryDefinitions as PD)\nfrom stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm\nfrom stoqcompiler.compiler import Compiler, CompilerResult\nfrom stoqcompiler.verification import Verification\n\n\ndef refused(f, *a, **k):\n    try:\n        f(*a, **k)\n    except Exception:\n        return True\n    return False\n\n\nnp.random.seed(7)\n\np = [UnitaryPrimitive(D.t()), UnitaryPrimitive(D.h())]\nfor seed in range(60):\n    np.random.seed(seed)\n    c = Compiler(2, p, annealing_rate=50.0)\n    r = c.compile_layered(Unitary.random(2), {p[0]: 1, p[1]: 1}, 0.999999, 12)\n    assert r.compiled_sequence.get_length() % 2 == 0\n'
