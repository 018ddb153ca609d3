PROP = 'P08'
NEEDS = 'a removal from an empty sequence between a change and its undo'
BREAKS = 'an empty removal overwrites the saved undo state'
EDITS = [('unitary/unitary_sequence.py', '        if self.get_length() > 0:\n            if save_undo:\n                self._save_undo_state()\n            entry_removed = self.sequence_entries.pop(-1)', '        if save_undo:\n            self._save_undo_state()\n        if self.get_length() > 0:\n            entry_removed = self.sequence_entries.pop(-1)')]
DEMO = 'import numpy as np\nfrom stoqcompiler.unitary import (Unitary, UnitarySequence, UnitarySequenceEntry, UnitaryPrimitive, UnitaryDefinitions as D,\n    ParameterizedUnitary, ParameterizedUnitaryParameter, ParameterizedUnitaryDefinitions as PD)\nfrom stoqcompiler.hamiltonian import Hamiltonian, HamiltonianTerm\nfrom stoqcompiler.compiler import Compiler, CompilerResult\nfrom stoqcompiler.verification import Verification\n\n\ndef refused(f, *a, **k):\n    try:\n        f(*a, **k)\n    except Exception:\n        return True\n    return False\n\n\nnp.random.seed(7)\ns = UnitarySequence(2)\ns.append_last(UnitarySequenceEntry(D.sigmax(), [0]))\ns.remove_first()\nassert s.get_length() == 0\ns.remove_last()\ns.undo()\nassert s.get_length() == 1\n'
