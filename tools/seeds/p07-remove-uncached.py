PROP = 'P07'
NEEDS = 'a removal at the front while the product is known and the removed entry does not commute'
BREAKS = 'removing at the front multiplies the inverse on the wrong side for an inverse-marked entry'
EDITS = [('unitary/unitary_sequence.py', '                self.sequence_product = self.sequence_product.right_multiply(\n                    u_removed.inverse())', '                if u_removed.is_inverse:\n                    self.sequence_product = u_removed.inverse().left_multiply(\n                        self.sequence_product)\n                else:\n                    self.sequence_product = self.sequence_product\\\n                        .left_multiply(u_removed.inverse())')]
DEMO = 'import numpy as np\nfrom stoqcompiler.unitary import (Unitary, UnitarySequence, UnitarySequenceEntry, UnitaryPrimitive, UnitaryDefinitions as D,\n    ParameterizedUnitary, ParameterizedUnitaryParameter, ParameterizedUnitaryDefinitions as PD)\nfrom stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm\nfrom stoqcompiler.compiler import Compiler, CompilerResult\nfrom stoqcompiler.verification import Verification\n\n\ndef refused(f, *a, **k):\n    try:\n        f(*a, **k)\n    except Exception:\n        return True\n    return False\n\n\nnp.random.seed(7)\ns = UnitarySequence(2)\nfor g in (D.h(), D.t(), D.rx(0.3)):\n    s.append_last(UnitarySequenceEntry(g, [0]))\ns.product()\ns.remove_first()\nassert s.product().close_to(D.rx(0.3).right_multiply(D.t()))\n'
