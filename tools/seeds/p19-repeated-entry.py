PROP = 'P19'
NEEDS = 'a count larger than one of a parameterized primitive'
BREAKS = 'the gates of one primitive in a layer are one gate repeated'
EDITS = [('compiler/compiler.py', '            layer.extend([\n                Compiler.create_random_sequence_entry(dimension, [primitive])\n                for _ in range(count)])\n', '            if count > 0:\n                layer.extend(count * [Compiler.create_random_sequence_entry(\n                    dimension, [primitive])])\n')]
DEMO = 'import numpy as np\nfrom stoqcompiler.unitary import (Unitary, UnitarySequence, UnitarySequenceEntry, UnitaryPrimitive, UnitaryDefinitions as D,\n    ParameterizedUnitary, ParameterizedUnitaryParameter, ParameterizedUnitaryDefinitions as PD)\nfrom stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm\nfrom stoqcompiler.compiler import Compiler, CompilerResult\nfrom stoqcompiler.verification import Verification\n\n\ndef refused(f, *a, **k):\n    try:\n        f(*a, **k)\n    except Exception:\n        return True\n    return False\n\n\nnp.random.seed(7)\n\np = UnitaryPrimitive(PD.rotation_xy())\nlayer = Compiler.create_random_layer(2, {p: 4})\nv = {e.unitary.get_qasm() for e in layer}\nassert len(layer) == 4 and len(v) == 4, v\n'
