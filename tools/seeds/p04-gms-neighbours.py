PROP = 'P04'
NEEDS = 'a GMS gate on four or more qubits'
BREAKS = 'the GMS gate leaves out pairs of distant qubits'
EDITS = [('unitary/unitary_definitions.py', 'for i in range(num_qubits) for j in range(i + 1, num_qubits)]', 'for i in range(num_qubits)\n            for j in range(i + 1, min(i + 3, num_qubits))]')]
DEMO = 'import numpy as np\nfrom stoqcompiler.unitary import (Unitary, UnitarySequence, UnitarySequenceEntry, UnitaryPrimitive, UnitaryDefinitions as D,\n    ParameterizedUnitary, ParameterizedUnitaryParameter, ParameterizedUnitaryDefinitions as PD)\nfrom stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm\nfrom stoqcompiler.compiler import Compiler, CompilerResult\nfrom stoqcompiler.verification import Verification\n\n\ndef refused(f, *a, **k):\n    try:\n        f(*a, **k)\n    except Exception:\n        return True\n    return False\n\n\nnp.random.seed(7)\nn, th = 4, 0.3\nX = np.array([[0, 1], [1, 0]])\nH = np.zeros((16, 16), complex)\nfor i in range(n):\n    for j in range(i + 1, n):\n        m = np.array([[1]])\n        for k in range(n):\n            m = np.kron(m, X if k in (i, j) else np.identity(2))\n        H = H + m\nw, v = np.linalg.eigh(H)\nwant = Unitary(16, v @ np.diag(np.exp(-1j * th * w)) @ v.conj().T)\nassert D.gms(n, th).close_to(want)\n'
