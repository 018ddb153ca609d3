PROP = 'P02'
NEEDS = 'an operation whose display name is I but whose matrix is not the identity'
BREAKS = 'left multiplication trusts the display name I'
EDITS = [('unitary/unitary.py', '        assert self.get_dimension() == factor.get_dimension()\n        return Unitary(\n            self.get_dimension(), factor.get_matrix() @ self.get_matrix())', '        assert self.get_dimension() == factor.get_dimension()\n        if factor.get_operation_name() == "I":\n            return self\n        return Unitary(\n            self.get_dimension(), factor.get_matrix() @ self.get_matrix())')]
DEMO = 'import numpy as np\nfrom stoqcompiler.unitary import (Unitary, UnitarySequence, UnitarySequenceEntry, UnitaryPrimitive, UnitaryDefinitions as D,\n    ParameterizedUnitary, ParameterizedUnitaryParameter, ParameterizedUnitaryDefinitions as PD)\nfrom stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm\nfrom stoqcompiler.compiler import Compiler, CompilerResult\nfrom stoqcompiler.verification import Verification\n\n\ndef refused(f, *a, **k):\n    try:\n        f(*a, **k)\n    except Exception:\n        return True\n    return False\n\n\nnp.random.seed(7)\nx = D.sigmax()\nnamed = Unitary(2, x.get_matrix(), "I")\nassert D.sigmaz().left_multiply(named).close_to(x.left_multiply(D.sigmaz()).left_multiply(Unitary.identity(2)).inverse())\nassert D.sigmaz().left_multiply(named).close_to(Unitary(2, x.get_matrix() @ D.sigmaz().get_matrix()))\n'
