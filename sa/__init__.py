'''Static value-flow analysis of the stoqcompiler package (see ../DESIGN.md).'''
