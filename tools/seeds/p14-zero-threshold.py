PROP = 'P14'
NEEDS = 'a threshold of zero'
BREAKS = 'compile treats a threshold of 0 as no threshold at all'
EDITS = [('compiler/compiler.py', '        compiled_sequence, cost_by_step = self._compile(\n            target_unitary, threshold, max_step_count)', '        compiled_sequence, cost_by_step = self._compile(\n            target_unitary, threshold or None, max_step_count)')]
DEMO = 'import numpy as np\nfrom stoqcompiler.unitary import (Unitary, UnitarySequence, UnitarySequenceEntry, UnitaryPrimitive, UnitaryDefinitions as D,\n    ParameterizedUnitary, ParameterizedUnitaryParameter, ParameterizedUnitaryDefinitions as PD)\nfrom stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm\nfrom stoqcompiler.compiler import Compiler, CompilerResult\nfrom stoqcompiler.verification import Verification\n\n\ndef refused(f, *a, **k):\n    try:\n        f(*a, **k)\n    except Exception:\n        return True\n    return False\n\n\nnp.random.seed(7)\n\nc = Compiler(2, [UnitaryPrimitive(D.t())])\nr = c.compile(D.sigmax(), 0.0, 5)\nassert len(r.cost_by_step) == 0, r.cost_by_step\n'
