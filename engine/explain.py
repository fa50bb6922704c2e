EXPLAIN = ('Abstract interpretation of the type-checked program (MIR exported by a compiler driver on every run; nothing is '
           'executed). Each specification function states a law about arbitrary values; the interpreter walks its MIR and, '
           'inlined, the MIR of the library and of the core/alloc functions it uses, over a trace-partitioned domain of '
           'value numbers, byte sequences and linear relations; loops are summarised by inductive header descriptions. '
           'An obligation is discharged when the abstract state entails it on every path, violated when a path without any '
           'approximation contradicts it, undecided otherwise.')
ASSUME = ['rustc nightly lowers the source to MIR faithfully', 'models of core/alloc primitives in engine/models.py',
          'contracts of type parameters (Encode/Decode/Target/Parser) in engine/hooks.py are those of well-behaved implementations']
