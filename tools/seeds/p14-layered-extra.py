PROP = 'P14'
NEEDS = 'a layered compilation that runs out of steps'
BREAKS = 'layered compilation takes one step more than allowed'
EDITS = [('compiler/compiler.py', '               and len(cost_by_step) < max_step_count):\n            self.beta = min(self.beta + self.annealing_rate, self.max_beta)\n            product_before_change = compiled_sequence.product()\n            self._make_random_change_layered(', '               and len(cost_by_step) <= max_step_count):\n            self.beta = min(self.beta + self.annealing_rate, self.max_beta)\n            product_before_change = compiled_sequence.product()\n            self._make_random_change_layered(')]
DEMO = 'import numpy as np\nfrom stoqcompiler.unitary import (Unitary, UnitarySequence, UnitarySequenceEntry, UnitaryPrimitive, UnitaryDefinitions as D,\n    ParameterizedUnitary, ParameterizedUnitaryParameter, ParameterizedUnitaryDefinitions as PD)\nfrom stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm\nfrom stoqcompiler.compiler import Compiler, CompilerResult\nfrom stoqcompiler.verification import Verification\n\n\ndef refused(f, *a, **k):\n    try:\n        f(*a, **k)\n    except Exception:\n        return True\n    return False\n\n\nnp.random.seed(7)\n\np = UnitaryPrimitive(PD.rotation_xy())\nc = Compiler(2, [p])\nr = c.compile_layered(D.rz(1.0), {p: 1}, 1.0, 7)\nassert len(r.cost_by_step) == 7, len(r.cost_by_step)\n'
