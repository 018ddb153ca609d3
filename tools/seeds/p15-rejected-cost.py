PROP = 'P15'
NEEDS = 'a rejected proposal in a layered compilation'
BREAKS = 'a rejected layer is recorded with the cost it would have had'
EDITS = [('compiler/compiler.py', '                compiled_sequence, unitary_primitive_counts)\n            current_cost = target_unitary.distance_from(product_before_change)\n            proposed_cost = target_unitary.distance_from(\n                compiled_sequence.product())\n            accept = self._accept_proposed_change(\n                target_unitary, current_cost, proposed_cost)\n            if accept:\n                cost_by_step.append(proposed_cost)\n            else:\n                compiled_sequence.undo()\n                cost_by_step.append(current_cost)\n', '                compiled_sequence, unitary_primitive_counts)\n            current_cost = target_unitary.distance_from(product_before_change)\n            proposed_cost = target_unitary.distance_from(\n                compiled_sequence.product())\n            cost_by_step.append(proposed_cost)\n            if not self._accept_proposed_change(\n                    target_unitary, current_cost, proposed_cost):\n                compiled_sequence.undo()\n')]
DEMO = 'import numpy as np\nfrom stoqcompiler.unitary import (Unitary, UnitarySequence, UnitarySequenceEntry, UnitaryPrimitive, UnitaryDefinitions as D,\n    ParameterizedUnitary, ParameterizedUnitaryParameter, ParameterizedUnitaryDefinitions as PD)\nfrom stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm\nfrom stoqcompiler.compiler import Compiler, CompilerResult\nfrom stoqcompiler.verification import Verification\n\n\ndef refused(f, *a, **k):\n    try:\n        f(*a, **k)\n    except Exception:\n        return True\n    return False\n\n\nnp.random.seed(7)\n\np = UnitaryPrimitive(PD.rotation_xy())\nfor k in range(30):\n    c = Compiler(2, [p], annealing_rate=1000.0)\n    r = c.compile_layered(D.rz(1.0), {p: 1}, 1.0, 7)\n    d = D.rz(1.0).distance_from(r.compiled_sequence.product())\n    assert abs(r.cost_by_step[-1] - d) < 1e-6, (r.cost_by_step, d)\n'
