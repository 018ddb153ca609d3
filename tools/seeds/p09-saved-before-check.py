PROP = 'P09'
NEEDS = 'a refused append followed by an undo'
BREAKS = 'a refused append overwrites the undo state'
EDITS = [('unitary/unitary_sequence.py', '        self._assert_is_entry_valid(sequence_entry)\n\n        if save_undo:\n            self._save_undo_state()\n        self.sequence_entries.append(sequence_entry)\n', '        if save_undo:\n            self._save_undo_state()\n\n        self._assert_is_entry_valid(sequence_entry)\n        self.sequence_entries.append(sequence_entry)\n')]
DEMO = 'import numpy as np\nfrom stoqcompiler.unitary import (Unitary, UnitarySequence, UnitarySequenceEntry, UnitaryPrimitive, UnitaryDefinitions as D,\n    ParameterizedUnitary, ParameterizedUnitaryParameter, ParameterizedUnitaryDefinitions as PD)\nfrom stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm\nfrom stoqcompiler.compiler import Compiler, CompilerResult\nfrom stoqcompiler.verification import Verification\n\n\ndef refused(f, *a, **k):\n    try:\n        f(*a, **k)\n    except Exception:\n        return True\n    return False\n\n\nnp.random.seed(7)\n\ns = UnitarySequence(2)\ns.append_last(UnitarySequenceEntry(D.sigmax(), [0]))\nassert refused(s.append_last, UnitarySequenceEntry(D.sigmax(), [1]))\ns.undo()\nassert s.get_length() == 0\n'
