PROP = 'P21'
NEEDS = 'two runs with the same seed of a Hamiltonian verification'
BREAKS = 'the direction of a random step comes from the random module'
EDITS = [('hamiltonian/hamiltonian.py', '1 if np.random.random_sample() < forward_probability else -1)', '1 if random.random() < forward_probability else -1)'), ('hamiltonian/hamiltonian.py', 'import numpy as np\nimport itertools', 'import numpy as np\nimport itertools\nimport random')]
DEMO = 'import numpy as np\nfrom stoqcompiler.unitary import (Unitary, UnitarySequence, UnitarySequenceEntry, UnitaryPrimitive, UnitaryDefinitions as D,\n    ParameterizedUnitary, ParameterizedUnitaryParameter, ParameterizedUnitaryDefinitions as PD)\nfrom stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm\nfrom stoqcompiler.compiler import Compiler, CompilerResult\nfrom stoqcompiler.verification import Verification\n\n\ndef refused(f, *a, **k):\n    try:\n        f(*a, **k)\n    except Exception:\n        return True\n    return False\n\n\nnp.random.seed(7)\n\nh = Hamiltonian([HamiltonianTerm(np.array([[0, 1], [1, 0]])), HamiltonianTerm(np.array([[1, 0], [0, -1]]))])\nout = set()\nfor _ in range(12):\n    np.random.seed(3)\n    out.add(h.compile_rav_sequence(2.0, 0.2, 0.1).compiled_sequence.get_display_output())\nassert len(out) == 1\n'
