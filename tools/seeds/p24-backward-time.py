PROP = 'P24'
NEEDS = 'backward random steps'
BREAKS = 'backward steps reduce the total duration of the random part'
EDITS = [('hamiltonian/hamiltonian.py', 'total_time += np.abs(t_step)', 'total_time += t_step')]
DEMO = 'import numpy as np\nfrom stoqcompiler.unitary import (Unitary, UnitarySequence, UnitarySequenceEntry, UnitaryPrimitive, UnitaryDefinitions as D,\n    ParameterizedUnitary, ParameterizedUnitaryParameter, ParameterizedUnitaryDefinitions as PD)\nfrom stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm\nfrom stoqcompiler.compiler import Compiler, CompilerResult\nfrom stoqcompiler.verification import Verification\n\n\ndef refused(f, *a, **k):\n    try:\n        f(*a, **k)\n    except Exception:\n        return True\n    return False\n\n\nnp.random.seed(7)\n\nh = Hamiltonian([HamiltonianTerm(np.array([[0, 1], [1, 0]])), HamiltonianTerm(np.array([[1, 0], [0, -1]]))])\nfrom unittest import mock\nfor seed in range(20):\n    np.random.seed(seed)\n    seen = []\n    def stub(self, target, *a):\n        return CompilerResult(UnitarySequence(2), [], 0.0)\n    with mock.patch.object(Hamiltonian, "_compile_stoq_sequence_for_target_unitary", stub):\n        r = h.compile_rav_sequence(3.0, 0.5, 0.1)\n    ts = [abs(e.unitary.get_parameter_value("t")[0]) for e in r.compiled_sequence.get_sequence_entries()]\n    assert sum(ts) >= 3.0 and sum(ts[:-1]) < 3.0\n'
