PROP = 'P17'
NEEDS = 'a primitive with two parameters of different intervals'
BREAKS = 'all random parameters are drawn from the interval of the first'
EDITS = [('compiler/compiler.py', '                p.random_value() for p in new_unitary.get_parameters()]', '                new_unitary.get_parameters()[0].random_value()\n                for _ in new_unitary.get_parameters()]')]
DEMO = 'import numpy as np\nfrom stoqcompiler.unitary import (Unitary, UnitarySequence, UnitarySequenceEntry, UnitaryPrimitive, UnitaryDefinitions as D,\n    ParameterizedUnitary, ParameterizedUnitaryParameter, ParameterizedUnitaryDefinitions as PD)\nfrom stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm\nfrom stoqcompiler.compiler import Compiler, CompilerResult\nfrom stoqcompiler.verification import Verification\n\n\ndef refused(f, *a, **k):\n    try:\n        f(*a, **k)\n    except Exception:\n        return True\n    return False\n\n\nnp.random.seed(7)\n\nP = ParameterizedUnitaryParameter\n\n\ndef m(a, b):\n    return np.diag([np.exp(1j * a), np.exp(1j * b)])\n\n\nu = ParameterizedUnitary(2, m, [P("a", 0.0, 0.5, True), P("b", 0.0, 2.0, True)], "M")\nvs = [Compiler.create_random_sequence_entry(2, [UnitaryPrimitive(u)]).unitary.parameter_dict["b"][0] for _ in range(60)]\nassert max(vs) > 0.5, max(vs)\n'
