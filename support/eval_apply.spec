# eval_apply: for every resume point, each path to the next one: condition, registers, frames, effects, stores
{'cell_vm_apply': [{'ev': [('effect', 'check_formals', [('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]), ('T', 64, 0, [(('v', 'builtin_arity(([[@R1]+8]))', 64), 1)]), ('T', 64, 0, [(('v', '[[@R1]+16]', 64), 1)])]),
                           ('effect', 'apply_builtin', [('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]), ('T', 64, 0, [(('v', '[[@R1]+16]', 64), 1)])]),
                           ('pop', 'outer', [])],
                    'guards': [(('b', 'zero', ('T', 32, 12, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), True),
                               (('b', 'zero', ('T', 64, 0, [(('v', '^cell_t', 64), -1), (('v', 'builtin_p(([[@R1]+8]))', 64), 1)])), True)],
                    'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                             'R1': ('T', 64, 0, [(('v', 'apply_builtin(([[@R1]+8]), ([[@R1]+16]))', 64), 1)]),
                             'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                             'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                    'stores': [('[@g_stack_array]', ('T', 64, 32, [(('v', '[@g_stack]', 64), 8)]), 8, ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]))],
                    'to': 'dispatch'},
                   {'ev': [('push',
                            'frame',
                            [('T', 64, 0, [(('v', '[@R0]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '^cell_vm_apply2', 64), 1)])])],
                    'guards': [(('b', 'zero', ('T', 32, 12, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), True),
                               (('b', 'zero', ('T', 64, 0, [(('v', '^cell_t', 64), -1), (('v', 'builtin_p(([[@R1]+8]))', 64), 1)])), False)],
                    'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                             'R1': ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]),
                             'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                             'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                    'stores': [('[@g_stack_array]', ('T', 64, 32, [(('v', '[@g_stack]', 64), 8)]), 8, ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]))],
                    'to': 'cell_vm_eval'},
                   {'ev': [('effect', 'check_formals', [('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]), ('T', 64, 0, [(('v', '[[[[[@R1]+8]+16]+16]+8]', 64), 1)]), ('T', 64, 0, [(('v', '[[@R1]+16]', 64), 1)])])],
                    'guards': [(('b', 'zero', ('T', 32, 12, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False), (('b', 'zero', ('T', 32, 2, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), True)],
                    'regs': {'R0': ('T',
                                    64,
                                    0,
                                    [(('v',
                                       'cons((cons((^cell_closure), (pairlis(([[[[[@R1]+8]+16]+16]+8]), ([[@R1]+16]), ([[[[[[@R1]+8]+16]+8]+16]+16]))))), (pairlis(([[[[[@R1]+8]+16]+16]+8]), ([[@R1]+16]), '
                                       '([[[[[[@R1]+8]+16]+8]+16]+16]))))',
                                       64),
                                      1)]),
                             'R1': ('T', 64, 0, [(('v', '[[[[[@R1]+8]+16]+16]+16]', 64), 1)]),
                             'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                             'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                    'stores': [('[@g_stack_array]', ('T', 64, 32, [(('v', '[@g_stack]', 64), 8)]), 8, ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]))],
                    'to': 'cell_vm_begin'},
                   {'ev': [('pop', 'outer', [])],
                    'guards': [(('b', 'zero', ('T', 32, 12, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 2, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 3, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), True),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[[[@R1]+8]+16]+8]', 64), -1)])), False),
                               (('b', 'slt', ('T', 64, 0, [(('iv', 'k#0'), 1)]), ('T', 64, 0, [(('v', '[[[[@R1]+8]+16]+8]', 64), 1)])), False)],
                    'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                             'R1': ('T', 64, 0, [(('v', '[[[@R1]+16]+8]', 64), 1)]),
                             'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                             'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                    'stores': [('[@g_stack_array]', ('T', 64, 32, [(('v', '[@g_stack]', 64), 8)]), 8, ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)])),
                               ('@g_stack', ('T', 64, 0, []), 8, ('T', 64, 0, [(('v', '[@STACK_SIZE]', 64), 1), (('v', '[[[[@R1]+8]+16]+8]', 64), -1)]))],
                    'to': 'dispatch'},
                   {'ev': [('pop', 'outer', [])],
                    'guards': [(('b', 'zero', ('T', 32, 12, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 2, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 3, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), True),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[[[@R1]+8]+16]+8]', 64), -1)])), True)],
                    'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                             'R1': ('T', 64, 0, [(('v', '[[[@R1]+16]+8]', 64), 1)]),
                             'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                             'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                    'stores': [('[@g_stack_array]', ('T', 64, 32, [(('v', '[@g_stack]', 64), 8)]), 8, ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]))],
                    'to': 'dispatch'},
                   {'ev': [('push',
                            'frame',
                            [('T', 64, 0, [(('v', '[@R0]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])])],
                    'guards': [(('b', 'zero', ('T', 32, 12, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 2, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 3, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 10, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), True),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_vm_apply', 64), 1)])), True)],
                    'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                             'R1': ('T', 64, 0, [(('v', 'cons(([[[@R1]+16]+8]), ([[[[@R1]+16]+16]+8]))', 64), 1)]),
                             'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                             'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                    'stores': [('[@g_stack_array]', ('T', 64, 32, [(('v', '[@g_stack]', 64), 8)]), 8, ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]))],
                    'to': 'cell_vm_apply'},
                   {'ev': [('push',
                            'frame',
                            [('T', 64, 0, [(('v', '[@R0]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])])],
                    'guards': [(('b', 'zero', ('T', 32, 12, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 2, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 3, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 10, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), True),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_vm_apply', 64), 1)])), False),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_vm_eval', 64), 1)])), True)],
                    'regs': {'R0': ('T', 64, 0, [(('v', '[[[[@R1]+16]+16]+8]', 64), 1)]),
                             'R1': ('T', 64, 0, [(('v', '[[[@R1]+16]+8]', 64), 1)]),
                             'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                             'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                    'stores': [('[@g_stack_array]', ('T', 64, 32, [(('v', '[@g_stack]', 64), 8)]), 8, ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]))],
                    'to': 'cell_vm_eval'},
                   {'ev': [('push',
                            'frame',
                            [('T', 64, 0, [(('v', '[@R0]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])])],
                    'guards': [(('b', 'zero', ('T', 32, 12, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 2, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 3, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 10, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), True),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_vm_apply', 64), 1)])), False),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_vm_eval', 64), 1)])), False),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_vm_begin_expand', 64), 1)])), True)],
                    'regs': {'R0': ('T', 64, 0, [(('v', '[[[[@R1]+16]+16]+8]', 64), 1)]),
                             'R1': ('T', 64, 0, [(('v', 'cons(([[[@R1]+16]+8]), (^cell_nil))', 64), 1)]),
                             'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                             'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                    'stores': [('[@g_stack_array]', ('T', 64, 32, [(('v', '[@g_stack]', 64), 8)]), 8, ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]))],
                    'to': 'cell_vm_begin_expand'},
                   {'ev': [('effect', 'check_apply', [('T', 64, 0, [(('v', '^cell_f', 64), 1)]), ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)])]),
                           ('push',
                            'frame',
                            [('T', 64, 0, [(('v', '[@R0]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '^cell_vm_apply2', 64), 1)])])],
                    'guards': [(('b', 'zero', ('T', 32, 12, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 2, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 3, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 10, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), True),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_vm_apply', 64), 1)])), False),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_vm_eval', 64), 1)])), False),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_vm_begin_expand', 64), 1)])), False)],
                    'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                             'R1': ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]),
                             'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                             'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                    'stores': [('[@g_stack_array]', ('T', 64, 32, [(('v', '[@g_stack]', 64), 8)]), 8, ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]))],
                    'to': 'cell_vm_eval'},
                   {'ev': [('push', 'frame', [('T', 64, 0, [(('v', '[@R0]', 64), 1)]), ('T', 64, 0, [(('v', '[[@R1]+16]', 64), 1)]), ('T', 64, 0, [(('v', '[@R2]', 64), 1)]), ('T', 64, 0, [(('v', '[@R3]', 64), 1)])]),
                           ('effect', 'make_continuation', [('T', 64, 0, [(('ex', True, ('T', 32, 0, [(('v', '[@g_continuations].4', 32), 1)])), 1)])]),
                           ('effect', 'make_vector_', [('T', 64, 0, [(('v', '[@STACK_SIZE]', 64), 1), (('v', '[@g_stack]', 64), -1)]), ('T', 64, 0, [(('v', '^cell_unspecified', 64), 1)])]),
                           ('pop', 'own', []),
                           ('push',
                            'frame',
                            [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                             ('T', 64, 0, [(('v', '[[@R1]+16]', 64), 1)]),
                             ('T', 64, 0, [(('v', 'make_continuation((S([@g_continuations].4):32))', 64), 1)]),
                             ('T', 64, 0, [(('v', '^cell_vm_call_with_current_continuation2', 64), 1)])])],
                    'guards': [(('b', 'zero', ('T', 32, 12, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 2, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 3, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 10, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 13, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), True),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_call_with_current_continuation', 64), 1)])), True),
                               (('b', 'ult', ('T', 64, 0, [(('iv', 'k#0'), 1), (('v', '[@g_stack]', 64), 1)]), ('T', 64, 0, [(('v', '[@STACK_SIZE]', 64), 1)])), False)],
                    'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                             'R1': ('T', 64, 0, [(('v', 'cons(([[[@R1]+16]+8]), (cons((make_continuation((S([@g_continuations].4):32))), (^cell_nil))))', 64), 1)]),
                             'R2': ('T', 64, 0, [(('v', 'make_continuation((S([@g_continuations].4):32))', 64), 1)]),
                             'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                    'stores': [('[@g_stack_array]', ('T', 64, 32, [(('v', '[@g_stack]', 64), 8)]), 8, ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)])),
                               ('@g_continuations', ('T', 64, 0, []), 4, ('T', 32, 1, [(('v', '[@g_continuations].4', 32), 1)])),
                               ('make_continuation((S([@g_continuations].4):32))', ('T', 64, 16, []), 8, ('T', 64, 0, [(('v', 'make_vector_(([@STACK_SIZE]+-1*[@g_stack]), (^cell_unspecified))', 64), 1)]))],
                    'to': 'cell_vm_apply'},
                   {'ev': [('push',
                            'frame',
                            [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                             ('T', 64, 0, [(('v', '[[@R1]+16]', 64), 1)]),
                             ('T', 64, 0, [(('v', '[[@R1]+16]', 64), 1)]),
                             ('T', 64, 0, [(('v', '^cell_vm_call_with_values2', 64), 1)])])],
                    'guards': [(('b', 'zero', ('T', 32, 12, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 2, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 3, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 10, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 13, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), True),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_call_with_current_continuation', 64), 1)])), False),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_call_with_values', 64), 1)])), True)],
                    'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                             'R1': ('T', 64, 0, [(('v', 'cons(([[[@R1]+16]+8]), (^cell_nil))', 64), 1)]),
                             'R2': ('T', 64, 0, [(('v', '[[@R1]+16]', 64), 1)]),
                             'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                    'stores': [('[@g_stack_array]', ('T', 64, 32, [(('v', '[@g_stack]', 64), 8)]), 8, ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]))],
                    'to': 'cell_vm_apply'},
                   {'ev': [('pop', 'outer', [])],
                    'guards': [(('b', 'zero', ('T', 32, 12, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 2, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 3, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 10, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 13, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), True),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_call_with_current_continuation', 64), 1)])), False),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_call_with_values', 64), 1)])), False),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_current_module', 64), 1)])), True)],
                    'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                             'R1': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                             'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                             'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                    'stores': [('[@g_stack_array]', ('T', 64, 32, [(('v', '[@g_stack]', 64), 8)]), 8, ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]))],
                    'to': 'dispatch'},
                   {'ev': [('pop', 'outer', [])],
                    'guards': [(('b', 'zero', ('T', 32, 12, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 2, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 3, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 10, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 13, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), True),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_call_with_current_continuation', 64), 1)])), False),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_call_with_values', 64), 1)])), False),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_current_module', 64), 1)])), False),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_boot_module', 64), 1)])), True)],
                    'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                             'R1': ('T', 64, 0, [(('v', '[@M0]', 64), 1)]),
                             'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                             'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                    'stores': [('[@g_stack_array]', ('T', 64, 32, [(('v', '[@g_stack]', 64), 8)]), 8, ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]))],
                    'to': 'dispatch'},
                   {'ev': [('push',
                            'frame',
                            [('T', 64, 0, [(('v', '[@R0]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '^cell_vm_apply2', 64), 1)])])],
                    'guards': [(('b', 'zero', ('T', 32, 12, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 2, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 3, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 10, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 13, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), True),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_call_with_current_continuation', 64), 1)])), False),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_call_with_values', 64), 1)])), False),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_current_module', 64), 1)])), False),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_boot_module', 64), 1)])), False)],
                    'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                             'R1': ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]),
                             'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                             'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                    'stores': [('[@g_stack_array]', ('T', 64, 32, [(('v', '[@g_stack]', 64), 8)]), 8, ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]))],
                    'to': 'cell_vm_eval'},
                   {'ev': [('effect', 'check_formals', [('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '[[[[@R1]+8]+16]+8]', 64), 1)]), ('T', 64, 0, [(('v', '[[@R1]+16]', 64), 1)])])],
                    'guards': [(('b', 'zero', ('T', 32, 12, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 2, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 3, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 10, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 13, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 7, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), True),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R1]+8]+8]', 64), -1), (('v', '^cell_symbol_lambda', 64), 1)])), True)],
                    'regs': {'R0': ('T', 64, 0, [(('v', 'cons((cons((^cell_closure), (pairlis(([[[[@R1]+8]+16]+8]), ([[@R1]+16]), ([@R0]))))), (pairlis(([[[[@R1]+8]+16]+8]), ([[@R1]+16]), ([@R0]))))', 64), 1)]),
                             'R1': ('T', 64, 0, [(('v', '[[[[@R1]+8]+16]+16]', 64), 1)]),
                             'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                             'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                    'stores': [('[@g_stack_array]', ('T', 64, 32, [(('v', '[@g_stack]', 64), 8)]), 8, ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]))],
                    'to': 'cell_vm_begin'},
                   {'ev': [('push',
                            'frame',
                            [('T', 64, 0, [(('v', '[@R0]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '^cell_vm_apply2', 64), 1)])])],
                    'guards': [(('b', 'zero', ('T', 32, 12, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 2, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 3, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 10, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 13, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 7, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), True),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R1]+8]+8]', 64), -1), (('v', '^cell_symbol_lambda', 64), 1)])), False)],
                    'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                             'R1': ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]),
                             'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                             'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                    'stores': [('[@g_stack_array]', ('T', 64, 32, [(('v', '[@g_stack]', 64), 8)]), 8, ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]))],
                    'to': 'cell_vm_eval'},
                   {'ev': [('push',
                            'frame',
                            [('T', 64, 0, [(('v', '[@R0]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '^cell_vm_apply2', 64), 1)])])],
                    'guards': [(('b', 'zero', ('T', 32, 12, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 2, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 3, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 10, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 13, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 7, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False)],
                    'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                             'R1': ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]),
                             'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                             'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                    'stores': [('[@g_stack_array]', ('T', 64, 32, [(('v', '[@g_stack]', 64), 8)]), 8, ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]))],
                    'to': 'cell_vm_eval'},
                   {'ev': [],
                    'guards': [(('b', 'zero', ('T', 32, 12, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 2, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 3, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), True),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[[[@R1]+8]+16]+8]', 64), -1)])), False),
                               (('b', 'slt', ('T', 64, 0, [(('iv', 'k#0'), 1)]), ('T', 64, 0, [(('v', '[[[[@R1]+8]+16]+8]', 64), 1)])), True)],
                    'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]), 'R1': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), 'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]), 'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                    'stores': [('[@g_stack_array]', ('T', 64, 32, [(('v', '[@g_stack]', 64), 8)]), 8, ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)])),
                               ('[@g_stack_array]',
                                ('T', 64, 0, [(('iv', 'k#0'), 8), (('v', '[@STACK_SIZE]', 64), 8), (('v', '[[[[@R1]+8]+16]+8]', 64), -8)]),
                                8,
                                ('T', 64, 0, [(('v', 'vector_ref_(([[[@R1]+8]+16]), (k#1))', 64), 1)]))],
                    'to': 'loop'},
                   {'ev': [('push', 'frame', [('T', 64, 0, [(('v', '[@R0]', 64), 1)]), ('T', 64, 0, [(('v', '[[@R1]+16]', 64), 1)]), ('T', 64, 0, [(('v', '[@R2]', 64), 1)]), ('T', 64, 0, [(('v', '[@R3]', 64), 1)])]),
                           ('effect', 'make_continuation', [('T', 64, 0, [(('ex', True, ('T', 32, 0, [(('v', '[@g_continuations].4', 32), 1)])), 1)])]),
                           ('effect', 'make_vector_', [('T', 64, 0, [(('v', '[@STACK_SIZE]', 64), 1), (('v', '[@g_stack]', 64), -1)]), ('T', 64, 0, [(('v', '^cell_unspecified', 64), 1)])]),
                           ('effect',
                            'vector_set_x_',
                            [('T', 64, 0, [(('v', 'make_vector_(([@STACK_SIZE]+-1*[@g_stack]), (^cell_unspecified))', 64), 1)]),
                             ('T', 64, 0, [(('iv', 'k#0'), 1)]),
                             ('T', 64, 0, [(('v', '[[@g_stack_array]+(8*k#1+8*[@g_stack]):64]', 64), 1)])])],
                    'guards': [(('b', 'zero', ('T', 32, 12, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 2, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 3, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 10, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), False),
                               (('b', 'zero', ('T', 32, 13, [(('tr', 32, ('v', '[[[@R1]+8]]', 64)), -1)])), True),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_call_with_current_continuation', 64), 1)])), True),
                               (('b', 'ult', ('T', 64, 0, [(('iv', 'k#0'), 1), (('v', '[@g_stack]', 64), 1)]), ('T', 64, 0, [(('v', '[@STACK_SIZE]', 64), 1)])), True)],
                    'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                             'R1': ('T', 64, 0, [(('v', '[[@R1]+16]', 64), 1)]),
                             'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                             'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                    'stores': [('[@g_stack_array]', ('T', 64, 32, [(('v', '[@g_stack]', 64), 8)]), 8, ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)])),
                               ('@g_continuations', ('T', 64, 0, []), 4, ('T', 32, 1, [(('v', '[@g_continuations].4', 32), 1)]))],
                    'to': 'loop'}],
 'cell_vm_apply2': [{'ev': [('effect', 'check_apply', [('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '[[@R2]+8]', 64), 1)])])],
                     'guards': [],
                     'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                              'R1': ('T', 64, 0, [(('v', 'cons(([@R1]), ([[@R2]+16]))', 64), 1)]),
                              'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                              'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                     'stores': [],
                     'to': 'cell_vm_apply'}],
 'cell_vm_begin': [{'ev': [('effect', 'gc_check', []),
                           ('push',
                            'frame',
                            [('T', 64, 0, [(('v', '[@R0]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '^cell_vm_begin_primitive_load', 64), 1)])])],
                    'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_nil', 64), 1)])), False),
                               (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R1]+8]+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])), True)],
                    'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                             'R1': ('T', 64, 0, [(('v', 'cons(([[@R1]+8]), (^cell_nil))', 64), 1)]),
                             'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                             'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                    'stores': [],
                    'to': 'cell_vm_begin_expand'},
                   {'ev': [('effect', 'gc_check', [])],
                    'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_nil', 64), 1)])), False),
                               (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R1]+8]+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])), False),
                               (('b', 'zero', ('T', 64, 7, [(('v', '[[[@R1]+8]]', 64), -1)])), True),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R1]+8]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), True),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[append2(([[[@R1]+8]+16]), ([[@R1]+16]))+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), True)],
                    'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                             'R1': ('T', 64, 0, [(('v', '[append2(([[[@R1]+8]+16]), ([[@R1]+16]))+8]', 64), 1)]),
                             'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                             'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                    'stores': [],
                    'to': 'cell_vm_eval'},
                   {'ev': [('effect', 'gc_check', []),
                           ('push',
                            'frame',
                            [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                             ('T', 64, 0, [(('v', 'append2(([[[@R1]+8]+16]), ([[@R1]+16]))', 64), 1)]),
                             ('T', 64, 0, [(('v', 'append2(([[[@R1]+8]+16]), ([[@R1]+16]))', 64), 1)]),
                             ('T', 64, 0, [(('v', '^cell_vm_begin_eval', 64), 1)])])],
                    'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_nil', 64), 1)])), False),
                               (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R1]+8]+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])), False),
                               (('b', 'zero', ('T', 64, 7, [(('v', '[[[@R1]+8]]', 64), -1)])), True),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R1]+8]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), True),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[append2(([[[@R1]+8]+16]), ([[@R1]+16]))+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), False)],
                    'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                             'R1': ('T', 64, 0, [(('v', '[append2(([[[@R1]+8]+16]), ([[@R1]+16]))+8]', 64), 1)]),
                             'R2': ('T', 64, 0, [(('v', 'append2(([[[@R1]+8]+16]), ([[@R1]+16]))', 64), 1)]),
                             'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                    'stores': [],
                    'to': 'cell_vm_eval'},
                   {'ev': [('effect', 'gc_check', [])],
                    'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_nil', 64), 1)])), False),
                               (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R1]+8]+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])), False),
                               (('b', 'zero', ('T', 64, 7, [(('v', '[[[@R1]+8]]', 64), -1)])), True),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R1]+8]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), True)],
                    'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                             'R1': ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]),
                             'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                             'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                    'stores': [],
                    'to': 'cell_vm_eval'},
                   {'ev': [('effect', 'gc_check', []),
                           ('push',
                            'frame',
                            [('T', 64, 0, [(('v', '[@R0]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '^cell_vm_begin_eval', 64), 1)])])],
                    'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_nil', 64), 1)])), False),
                               (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R1]+8]+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])), False),
                               (('b', 'zero', ('T', 64, 7, [(('v', '[[[@R1]+8]]', 64), -1)])), True),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R1]+8]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), False)],
                    'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                             'R1': ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]),
                             'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                             'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                    'stores': [],
                    'to': 'cell_vm_eval'},
                   {'ev': [('effect', 'gc_check', [])],
                    'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_nil', 64), 1)])), False),
                               (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R1]+8]+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])), False),
                               (('b', 'zero', ('T', 64, 7, [(('v', '[[[@R1]+8]]', 64), -1)])), False),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), True)],
                    'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                             'R1': ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]),
                             'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                             'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                    'stores': [],
                    'to': 'cell_vm_eval'},
                   {'ev': [('effect', 'gc_check', []),
                           ('push',
                            'frame',
                            [('T', 64, 0, [(('v', '[@R0]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '^cell_vm_begin_eval', 64), 1)])])],
                    'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_nil', 64), 1)])), False),
                               (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R1]+8]+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])), False),
                               (('b', 'zero', ('T', 64, 7, [(('v', '[[[@R1]+8]]', 64), -1)])), False),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), False)],
                    'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                             'R1': ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]),
                             'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                             'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                    'stores': [],
                    'to': 'cell_vm_eval'},
                   {'ev': [('effect', 'gc_check', [])],
                    'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_nil', 64), 1)])), False),
                               (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), False),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), True)],
                    'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                             'R1': ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]),
                             'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                             'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                    'stores': [],
                    'to': 'cell_vm_eval'},
                   {'ev': [('effect', 'gc_check', []),
                           ('push',
                            'frame',
                            [('T', 64, 0, [(('v', '[@R0]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '^cell_vm_begin_eval', 64), 1)])])],
                    'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_nil', 64), 1)])), False),
                               (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), False),
                               (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), False)],
                    'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                             'R1': ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]),
                             'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                             'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                    'stores': [],
                    'to': 'cell_vm_eval'},
                   {'ev': [('pop', 'outer', [])],
                    'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_nil', 64), 1)])), True)],
                    'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                             'R1': ('T', 64, 0, [(('v', '^cell_unspecified', 64), 1)]),
                             'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                             'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                    'stores': [],
                    'to': 'dispatch'}],
 'cell_vm_begin_eval': [{'ev': [('effect', 'gc_check', []),
                                ('push',
                                 'frame',
                                 [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                  ('T', 64, 0, [(('v', '[[@R2]+16]', 64), 1)]),
                                  ('T', 64, 0, [(('v', '[[@R2]+16]', 64), 1)]),
                                  ('T', 64, 0, [(('v', '^cell_vm_begin_primitive_load', 64), 1)])])],
                         'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[[@R2]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), False),
                                    (('b', 'zero', ('T', 64, 7, [(('v', '[[[@R2]+16]]', 64), -1)])), True),
                                    (('b', 'zero', ('T', 64, 0, [(('v', '[[[[@R2]+16]+8]+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])), True)],
                         'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                  'R1': ('T', 64, 0, [(('v', 'cons(([[[@R2]+16]+8]), (^cell_nil))', 64), 1)]),
                                  'R2': ('T', 64, 0, [(('v', '[[@R2]+16]', 64), 1)]),
                                  'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                         'stores': [],
                         'to': 'cell_vm_begin_expand'},
                        {'ev': [('effect', 'gc_check', [])],
                         'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[[@R2]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), False),
                                    (('b', 'zero', ('T', 64, 7, [(('v', '[[[@R2]+16]]', 64), -1)])), True),
                                    (('b', 'zero', ('T', 64, 0, [(('v', '[[[[@R2]+16]+8]+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])), False),
                                    (('b', 'zero', ('T', 64, 7, [(('v', '[[[[@R2]+16]+8]]', 64), -1)])), True),
                                    (('b', 'zero', ('T', 64, 0, [(('v', '[[[[@R2]+16]+8]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), True),
                                    (('b', 'zero', ('T', 64, 0, [(('v', '[append2(([[[[@R2]+16]+8]+16]), ([[[@R2]+16]+16]))+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), True)],
                         'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                  'R1': ('T', 64, 0, [(('v', '[append2(([[[[@R2]+16]+8]+16]), ([[[@R2]+16]+16]))+8]', 64), 1)]),
                                  'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                  'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                         'stores': [],
                         'to': 'cell_vm_eval'},
                        {'ev': [('effect', 'gc_check', []),
                                ('push',
                                 'frame',
                                 [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                  ('T', 64, 0, [(('v', 'append2(([[[[@R2]+16]+8]+16]), ([[[@R2]+16]+16]))', 64), 1)]),
                                  ('T', 64, 0, [(('v', 'append2(([[[[@R2]+16]+8]+16]), ([[[@R2]+16]+16]))', 64), 1)]),
                                  ('T', 64, 0, [(('v', '^cell_vm_begin_eval', 64), 1)])])],
                         'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[[@R2]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), False),
                                    (('b', 'zero', ('T', 64, 7, [(('v', '[[[@R2]+16]]', 64), -1)])), True),
                                    (('b', 'zero', ('T', 64, 0, [(('v', '[[[[@R2]+16]+8]+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])), False),
                                    (('b', 'zero', ('T', 64, 7, [(('v', '[[[[@R2]+16]+8]]', 64), -1)])), True),
                                    (('b', 'zero', ('T', 64, 0, [(('v', '[[[[@R2]+16]+8]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), True),
                                    (('b', 'zero', ('T', 64, 0, [(('v', '[append2(([[[[@R2]+16]+8]+16]), ([[[@R2]+16]+16]))+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), False)],
                         'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                  'R1': ('T', 64, 0, [(('v', '[append2(([[[[@R2]+16]+8]+16]), ([[[@R2]+16]+16]))+8]', 64), 1)]),
                                  'R2': ('T', 64, 0, [(('v', 'append2(([[[[@R2]+16]+8]+16]), ([[[@R2]+16]+16]))', 64), 1)]),
                                  'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                         'stores': [],
                         'to': 'cell_vm_eval'},
                        {'ev': [('effect', 'gc_check', [])],
                         'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[[@R2]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), False),
                                    (('b', 'zero', ('T', 64, 7, [(('v', '[[[@R2]+16]]', 64), -1)])), True),
                                    (('b', 'zero', ('T', 64, 0, [(('v', '[[[[@R2]+16]+8]+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])), False),
                                    (('b', 'zero', ('T', 64, 7, [(('v', '[[[[@R2]+16]+8]]', 64), -1)])), True),
                                    (('b', 'zero', ('T', 64, 0, [(('v', '[[[[@R2]+16]+8]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                                    (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R2]+16]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), True)],
                         'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                  'R1': ('T', 64, 0, [(('v', '[[[@R2]+16]+8]', 64), 1)]),
                                  'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                  'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                         'stores': [],
                         'to': 'cell_vm_eval'},
                        {'ev': [('effect', 'gc_check', []),
                                ('push',
                                 'frame',
                                 [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                  ('T', 64, 0, [(('v', '[[@R2]+16]', 64), 1)]),
                                  ('T', 64, 0, [(('v', '[[@R2]+16]', 64), 1)]),
                                  ('T', 64, 0, [(('v', '^cell_vm_begin_eval', 64), 1)])])],
                         'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[[@R2]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), False),
                                    (('b', 'zero', ('T', 64, 7, [(('v', '[[[@R2]+16]]', 64), -1)])), True),
                                    (('b', 'zero', ('T', 64, 0, [(('v', '[[[[@R2]+16]+8]+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])), False),
                                    (('b', 'zero', ('T', 64, 7, [(('v', '[[[[@R2]+16]+8]]', 64), -1)])), True),
                                    (('b', 'zero', ('T', 64, 0, [(('v', '[[[[@R2]+16]+8]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                                    (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R2]+16]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), False)],
                         'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                  'R1': ('T', 64, 0, [(('v', '[[[@R2]+16]+8]', 64), 1)]),
                                  'R2': ('T', 64, 0, [(('v', '[[@R2]+16]', 64), 1)]),
                                  'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                         'stores': [],
                         'to': 'cell_vm_eval'},
                        {'ev': [('effect', 'gc_check', [])],
                         'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[[@R2]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), False),
                                    (('b', 'zero', ('T', 64, 7, [(('v', '[[[@R2]+16]]', 64), -1)])), True),
                                    (('b', 'zero', ('T', 64, 0, [(('v', '[[[[@R2]+16]+8]+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])), False),
                                    (('b', 'zero', ('T', 64, 7, [(('v', '[[[[@R2]+16]+8]]', 64), -1)])), False),
                                    (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R2]+16]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), True)],
                         'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                  'R1': ('T', 64, 0, [(('v', '[[[@R2]+16]+8]', 64), 1)]),
                                  'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                  'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                         'stores': [],
                         'to': 'cell_vm_eval'},
                        {'ev': [('effect', 'gc_check', []),
                                ('push',
                                 'frame',
                                 [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                  ('T', 64, 0, [(('v', '[[@R2]+16]', 64), 1)]),
                                  ('T', 64, 0, [(('v', '[[@R2]+16]', 64), 1)]),
                                  ('T', 64, 0, [(('v', '^cell_vm_begin_eval', 64), 1)])])],
                         'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[[@R2]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), False),
                                    (('b', 'zero', ('T', 64, 7, [(('v', '[[[@R2]+16]]', 64), -1)])), True),
                                    (('b', 'zero', ('T', 64, 0, [(('v', '[[[[@R2]+16]+8]+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])), False),
                                    (('b', 'zero', ('T', 64, 7, [(('v', '[[[[@R2]+16]+8]]', 64), -1)])), False),
                                    (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R2]+16]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), False)],
                         'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                  'R1': ('T', 64, 0, [(('v', '[[[@R2]+16]+8]', 64), 1)]),
                                  'R2': ('T', 64, 0, [(('v', '[[@R2]+16]', 64), 1)]),
                                  'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                         'stores': [],
                         'to': 'cell_vm_eval'},
                        {'ev': [('effect', 'gc_check', [])],
                         'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[[@R2]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), False),
                                    (('b', 'zero', ('T', 64, 7, [(('v', '[[[@R2]+16]]', 64), -1)])), False),
                                    (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R2]+16]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), True)],
                         'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                  'R1': ('T', 64, 0, [(('v', '[[[@R2]+16]+8]', 64), 1)]),
                                  'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                  'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                         'stores': [],
                         'to': 'cell_vm_eval'},
                        {'ev': [('effect', 'gc_check', []),
                                ('push',
                                 'frame',
                                 [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                  ('T', 64, 0, [(('v', '[[@R2]+16]', 64), 1)]),
                                  ('T', 64, 0, [(('v', '[[@R2]+16]', 64), 1)]),
                                  ('T', 64, 0, [(('v', '^cell_vm_begin_eval', 64), 1)])])],
                         'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[[@R2]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), False),
                                    (('b', 'zero', ('T', 64, 7, [(('v', '[[[@R2]+16]]', 64), -1)])), False),
                                    (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R2]+16]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), False)],
                         'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                  'R1': ('T', 64, 0, [(('v', '[[[@R2]+16]+8]', 64), 1)]),
                                  'R2': ('T', 64, 0, [(('v', '[[@R2]+16]', 64), 1)]),
                                  'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                         'stores': [],
                         'to': 'cell_vm_eval'},
                        {'ev': [('pop', 'outer', [])],
                         'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[[@R2]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), True)],
                         'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                                  'R1': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                  'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                                  'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                         'stores': [],
                         'to': 'dispatch'}],
 'cell_vm_begin_expand': [{'ev': [('effect', 'gc_check', []),
                                  ('push',
                                   'frame',
                                   [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    ('T', 64, 0, [(('v', 'append2(([[[@R1]+8]+16]), ([[@R1]+16]))', 64), 1)]),
                                    ('T', 64, 0, [(('v', 'append2(([[[@R1]+8]+16]), ([[@R1]+16]))', 64), 1)]),
                                    ('T', 64, 0, [(('v', '^cell_vm_begin_expand_primitive_load', 64), 1)])])],
                           'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_nil', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                                      (('b', 'zero', ('T', 64, 7, [(('v', '[[[@R1]+8]]', 64), -1)])), True),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R1]+8]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), True),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[append2(([[[@R1]+8]+16]), ([[@R1]+16]))+8]+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])), True)],
                           'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    'R1': ('T', 64, 0, [(('v', '[[[append2(([[[@R1]+8]+16]), ([[@R1]+16]))+8]+16]+8]', 64), 1)]),
                                    'R2': ('T', 64, 0, [(('v', 'append2(([[[@R1]+8]+16]), ([[@R1]+16]))', 64), 1)]),
                                    'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                           'stores': [],
                           'to': 'cell_vm_eval'},
                          {'ev': [('effect', 'gc_check', []),
                                  ('push',
                                   'frame',
                                   [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    ('T', 64, 0, [(('v', 'append2(([[[@R1]+8]+16]), ([[@R1]+16]))', 64), 1)]),
                                    ('T', 64, 0, [(('v', 'append2(([[[@R1]+8]+16]), ([[@R1]+16]))', 64), 1)]),
                                    ('T', 64, 0, [(('v', '^cell_vm_begin_expand_macro', 64), 1)])])],
                           'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_nil', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                                      (('b', 'zero', ('T', 64, 7, [(('v', '[[[@R1]+8]]', 64), -1)])), True),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R1]+8]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), True),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[append2(([[[@R1]+8]+16]), ([[@R1]+16]))+8]+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])), False)],
                           'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    'R1': ('T', 64, 0, [(('v', '[append2(([[[@R1]+8]+16]), ([[@R1]+16]))+8]', 64), 1)]),
                                    'R2': ('T', 64, 0, [(('v', 'append2(([[[@R1]+8]+16]), ([[@R1]+16]))', 64), 1)]),
                                    'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                           'stores': [],
                           'to': 'cell_vm_macro_expand'},
                          {'ev': [('effect', 'gc_check', []),
                                  ('push',
                                   'frame',
                                   [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '^cell_vm_begin_expand_primitive_load', 64), 1)])])],
                           'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_nil', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                                      (('b', 'zero', ('T', 64, 7, [(('v', '[[[@R1]+8]]', 64), -1)])), True),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R1]+8]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R1]+8]+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])), True)],
                           'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    'R1': ('T', 64, 0, [(('v', '[[[[@R1]+8]+16]+8]', 64), 1)]),
                                    'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                           'stores': [],
                           'to': 'cell_vm_eval'},
                          {'ev': [('effect', 'gc_check', []),
                                  ('push',
                                   'frame',
                                   [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '^cell_vm_begin_expand_macro', 64), 1)])])],
                           'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_nil', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                                      (('b', 'zero', ('T', 64, 7, [(('v', '[[[@R1]+8]]', 64), -1)])), True),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R1]+8]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R1]+8]+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])), False)],
                           'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    'R1': ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]),
                                    'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                           'stores': [],
                           'to': 'cell_vm_macro_expand'},
                          {'ev': [('effect', 'gc_check', []),
                                  ('push',
                                   'frame',
                                   [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '^cell_vm_begin_expand_primitive_load', 64), 1)])])],
                           'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_nil', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                                      (('b', 'zero', ('T', 64, 7, [(('v', '[[[@R1]+8]]', 64), -1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R1]+8]+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])), True)],
                           'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    'R1': ('T', 64, 0, [(('v', '[[[[@R1]+8]+16]+8]', 64), 1)]),
                                    'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                           'stores': [],
                           'to': 'cell_vm_eval'},
                          {'ev': [('effect', 'gc_check', []),
                                  ('push',
                                   'frame',
                                   [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '^cell_vm_begin_expand_macro', 64), 1)])])],
                           'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_nil', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                                      (('b', 'zero', ('T', 64, 7, [(('v', '[[[@R1]+8]]', 64), -1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R1]+8]+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])), False)],
                           'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    'R1': ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]),
                                    'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                           'stores': [],
                           'to': 'cell_vm_macro_expand'},
                          {'ev': [('effect', 'gc_check', []),
                                  ('push',
                                   'frame',
                                   [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '^cell_vm_begin_expand_macro', 64), 1)])])],
                           'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_nil', 64), 1)])), False), (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), False)],
                           'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    'R1': ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]),
                                    'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                           'stores': [],
                           'to': 'cell_vm_macro_expand'},
                          {'ev': [('pop', 'outer', [])],
                           'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_nil', 64), 1)])), True)],
                           'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                                    'R1': ('T', 64, 0, [(('v', '^cell_unspecified', 64), 1)]),
                                    'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                                    'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                           'stores': [],
                           'to': 'dispatch'}],
 'cell_vm_begin_expand_eval': [{'ev': [('effect', 'gc_check', []),
                                       ('push',
                                        'frame',
                                        [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                         ('T', 64, 0, [(('v', 'append2(([[[[@R2]+16]+8]+16]), ([[[@R2]+16]+16]))', 64), 1)]),
                                         ('T', 64, 0, [(('v', 'append2(([[[[@R2]+16]+8]+16]), ([[[@R2]+16]+16]))', 64), 1)]),
                                         ('T', 64, 0, [(('v', '^cell_vm_begin_expand_primitive_load', 64), 1)])])],
                                'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[[@R2]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), False),
                                           (('b', 'zero', ('T', 64, 7, [(('v', '[[[@R2]+16]]', 64), -1)])), True),
                                           (('b', 'zero', ('T', 64, 7, [(('v', '[[[[@R2]+16]+8]]', 64), -1)])), True),
                                           (('b', 'zero', ('T', 64, 0, [(('v', '[[[[@R2]+16]+8]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), True),
                                           (('b', 'zero', ('T', 64, 0, [(('v', '[[append2(([[[[@R2]+16]+8]+16]), ([[[@R2]+16]+16]))+8]+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])), True)],
                                'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                         'R1': ('T', 64, 0, [(('v', '[[[append2(([[[[@R2]+16]+8]+16]), ([[[@R2]+16]+16]))+8]+16]+8]', 64), 1)]),
                                         'R2': ('T', 64, 0, [(('v', 'append2(([[[[@R2]+16]+8]+16]), ([[[@R2]+16]+16]))', 64), 1)]),
                                         'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                                'stores': [],
                                'to': 'cell_vm_eval'},
                               {'ev': [('effect', 'gc_check', []),
                                       ('push',
                                        'frame',
                                        [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                         ('T', 64, 0, [(('v', 'append2(([[[[@R2]+16]+8]+16]), ([[[@R2]+16]+16]))', 64), 1)]),
                                         ('T', 64, 0, [(('v', 'append2(([[[[@R2]+16]+8]+16]), ([[[@R2]+16]+16]))', 64), 1)]),
                                         ('T', 64, 0, [(('v', '^cell_vm_begin_expand_macro', 64), 1)])])],
                                'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[[@R2]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), False),
                                           (('b', 'zero', ('T', 64, 7, [(('v', '[[[@R2]+16]]', 64), -1)])), True),
                                           (('b', 'zero', ('T', 64, 7, [(('v', '[[[[@R2]+16]+8]]', 64), -1)])), True),
                                           (('b', 'zero', ('T', 64, 0, [(('v', '[[[[@R2]+16]+8]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), True),
                                           (('b', 'zero', ('T', 64, 0, [(('v', '[[append2(([[[[@R2]+16]+8]+16]), ([[[@R2]+16]+16]))+8]+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])), False)],
                                'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                         'R1': ('T', 64, 0, [(('v', '[append2(([[[[@R2]+16]+8]+16]), ([[[@R2]+16]+16]))+8]', 64), 1)]),
                                         'R2': ('T', 64, 0, [(('v', 'append2(([[[[@R2]+16]+8]+16]), ([[[@R2]+16]+16]))', 64), 1)]),
                                         'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                                'stores': [],
                                'to': 'cell_vm_macro_expand'},
                               {'ev': [('effect', 'gc_check', []),
                                       ('push',
                                        'frame',
                                        [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                         ('T', 64, 0, [(('v', '[[@R2]+16]', 64), 1)]),
                                         ('T', 64, 0, [(('v', '[[@R2]+16]', 64), 1)]),
                                         ('T', 64, 0, [(('v', '^cell_vm_begin_expand_primitive_load', 64), 1)])])],
                                'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[[@R2]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), False),
                                           (('b', 'zero', ('T', 64, 7, [(('v', '[[[@R2]+16]]', 64), -1)])), True),
                                           (('b', 'zero', ('T', 64, 7, [(('v', '[[[[@R2]+16]+8]]', 64), -1)])), True),
                                           (('b', 'zero', ('T', 64, 0, [(('v', '[[[[@R2]+16]+8]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                                           (('b', 'zero', ('T', 64, 0, [(('v', '[[[[@R2]+16]+8]+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])), True)],
                                'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                         'R1': ('T', 64, 0, [(('v', '[[[[[@R2]+16]+8]+16]+8]', 64), 1)]),
                                         'R2': ('T', 64, 0, [(('v', '[[@R2]+16]', 64), 1)]),
                                         'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                                'stores': [],
                                'to': 'cell_vm_eval'},
                               {'ev': [('effect', 'gc_check', []),
                                       ('push',
                                        'frame',
                                        [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                         ('T', 64, 0, [(('v', '[[@R2]+16]', 64), 1)]),
                                         ('T', 64, 0, [(('v', '[[@R2]+16]', 64), 1)]),
                                         ('T', 64, 0, [(('v', '^cell_vm_begin_expand_macro', 64), 1)])])],
                                'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[[@R2]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), False),
                                           (('b', 'zero', ('T', 64, 7, [(('v', '[[[@R2]+16]]', 64), -1)])), True),
                                           (('b', 'zero', ('T', 64, 7, [(('v', '[[[[@R2]+16]+8]]', 64), -1)])), True),
                                           (('b', 'zero', ('T', 64, 0, [(('v', '[[[[@R2]+16]+8]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                                           (('b', 'zero', ('T', 64, 0, [(('v', '[[[[@R2]+16]+8]+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])), False)],
                                'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                         'R1': ('T', 64, 0, [(('v', '[[[@R2]+16]+8]', 64), 1)]),
                                         'R2': ('T', 64, 0, [(('v', '[[@R2]+16]', 64), 1)]),
                                         'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                                'stores': [],
                                'to': 'cell_vm_macro_expand'},
                               {'ev': [('effect', 'gc_check', []),
                                       ('push',
                                        'frame',
                                        [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                         ('T', 64, 0, [(('v', '[[@R2]+16]', 64), 1)]),
                                         ('T', 64, 0, [(('v', '[[@R2]+16]', 64), 1)]),
                                         ('T', 64, 0, [(('v', '^cell_vm_begin_expand_primitive_load', 64), 1)])])],
                                'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[[@R2]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), False),
                                           (('b', 'zero', ('T', 64, 7, [(('v', '[[[@R2]+16]]', 64), -1)])), True),
                                           (('b', 'zero', ('T', 64, 7, [(('v', '[[[[@R2]+16]+8]]', 64), -1)])), False),
                                           (('b', 'zero', ('T', 64, 0, [(('v', '[[[[@R2]+16]+8]+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])), True)],
                                'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                         'R1': ('T', 64, 0, [(('v', '[[[[[@R2]+16]+8]+16]+8]', 64), 1)]),
                                         'R2': ('T', 64, 0, [(('v', '[[@R2]+16]', 64), 1)]),
                                         'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                                'stores': [],
                                'to': 'cell_vm_eval'},
                               {'ev': [('effect', 'gc_check', []),
                                       ('push',
                                        'frame',
                                        [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                         ('T', 64, 0, [(('v', '[[@R2]+16]', 64), 1)]),
                                         ('T', 64, 0, [(('v', '[[@R2]+16]', 64), 1)]),
                                         ('T', 64, 0, [(('v', '^cell_vm_begin_expand_macro', 64), 1)])])],
                                'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[[@R2]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), False),
                                           (('b', 'zero', ('T', 64, 7, [(('v', '[[[@R2]+16]]', 64), -1)])), True),
                                           (('b', 'zero', ('T', 64, 7, [(('v', '[[[[@R2]+16]+8]]', 64), -1)])), False),
                                           (('b', 'zero', ('T', 64, 0, [(('v', '[[[[@R2]+16]+8]+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])), False)],
                                'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                         'R1': ('T', 64, 0, [(('v', '[[[@R2]+16]+8]', 64), 1)]),
                                         'R2': ('T', 64, 0, [(('v', '[[@R2]+16]', 64), 1)]),
                                         'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                                'stores': [],
                                'to': 'cell_vm_macro_expand'},
                               {'ev': [('effect', 'gc_check', []),
                                       ('push',
                                        'frame',
                                        [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                         ('T', 64, 0, [(('v', '[[@R2]+16]', 64), 1)]),
                                         ('T', 64, 0, [(('v', '[[@R2]+16]', 64), 1)]),
                                         ('T', 64, 0, [(('v', '^cell_vm_begin_expand_macro', 64), 1)])])],
                                'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[[@R2]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), False), (('b', 'zero', ('T', 64, 7, [(('v', '[[[@R2]+16]]', 64), -1)])), False)],
                                'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                         'R1': ('T', 64, 0, [(('v', '[[[@R2]+16]+8]', 64), 1)]),
                                         'R2': ('T', 64, 0, [(('v', '[[@R2]+16]', 64), 1)]),
                                         'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                                'stores': [],
                                'to': 'cell_vm_macro_expand'},
                               {'ev': [('pop', 'outer', [])],
                                'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[[@R2]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), True)],
                                'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                                         'R1': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                         'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                                         'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                                'stores': [],
                                'to': 'dispatch'}],
 'cell_vm_begin_expand_macro': [{'ev': [('effect', 'gc_check', []),
                                        ('push',
                                         'frame',
                                         [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                          ('T', 64, 0, [(('v', 'append2(([[@R1]+16]), ([[@R2]+16]))', 64), 1)]),
                                          ('T', 64, 0, [(('v', 'append2(([[@R1]+16]), ([[@R2]+16]))', 64), 1)]),
                                          ('T', 64, 0, [(('v', '^cell_vm_begin_expand_primitive_load', 64), 1)])])],
                                 'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '[[@R2]+8]', 64), 1)])), False),
                                            (('b', 'zero', ('T', 64, 7, [(('v', '[[@R2]]', 64), -1)])), True),
                                            (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                                            (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), True),
                                            (('b', 'zero', ('T', 64, 0, [(('v', '[[append2(([[@R1]+16]), ([[@R2]+16]))+8]+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])), True)],
                                 'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                          'R1': ('T', 64, 0, [(('v', '[[[append2(([[@R1]+16]), ([[@R2]+16]))+8]+16]+8]', 64), 1)]),
                                          'R2': ('T', 64, 0, [(('v', 'append2(([[@R1]+16]), ([[@R2]+16]))', 64), 1)]),
                                          'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                                 'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', '[@R1]', 64), 1)]))],
                                 'to': 'cell_vm_eval'},
                                {'ev': [('effect', 'gc_check', []),
                                        ('push',
                                         'frame',
                                         [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                          ('T', 64, 0, [(('v', 'append2(([[@R1]+16]), ([[@R2]+16]))', 64), 1)]),
                                          ('T', 64, 0, [(('v', 'append2(([[@R1]+16]), ([[@R2]+16]))', 64), 1)]),
                                          ('T', 64, 0, [(('v', '^cell_vm_begin_expand_macro', 64), 1)])])],
                                 'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '[[@R2]+8]', 64), 1)])), False),
                                            (('b', 'zero', ('T', 64, 7, [(('v', '[[@R2]]', 64), -1)])), True),
                                            (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                                            (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), True),
                                            (('b', 'zero', ('T', 64, 0, [(('v', '[[append2(([[@R1]+16]), ([[@R2]+16]))+8]+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])), False)],
                                 'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                          'R1': ('T', 64, 0, [(('v', '[append2(([[@R1]+16]), ([[@R2]+16]))+8]', 64), 1)]),
                                          'R2': ('T', 64, 0, [(('v', 'append2(([[@R1]+16]), ([[@R2]+16]))', 64), 1)]),
                                          'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                                 'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', '[@R1]', 64), 1)]))],
                                 'to': 'cell_vm_macro_expand'},
                                {'ev': [('effect', 'gc_check', []),
                                        ('push',
                                         'frame',
                                         [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                          ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                          ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                          ('T', 64, 0, [(('v', '^cell_vm_begin_expand_primitive_load', 64), 1)])])],
                                 'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '[[@R2]+8]', 64), 1)])), False),
                                            (('b', 'zero', ('T', 64, 7, [(('v', '[[@R2]]', 64), -1)])), True),
                                            (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                                            (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                                            (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])), True)],
                                 'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                          'R1': ('T', 64, 0, [(('v', '[[[@R1]+16]+8]', 64), 1)]),
                                          'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                          'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                                 'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', '[@R1]', 64), 1)]))],
                                 'to': 'cell_vm_eval'},
                                {'ev': [('effect', 'gc_check', []),
                                        ('push',
                                         'frame',
                                         [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                          ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                          ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                          ('T', 64, 0, [(('v', '^cell_vm_begin_expand_macro', 64), 1)])])],
                                 'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '[[@R2]+8]', 64), 1)])), False),
                                            (('b', 'zero', ('T', 64, 7, [(('v', '[[@R2]]', 64), -1)])), True),
                                            (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                                            (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                                            (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])), False)],
                                 'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                          'R1': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                          'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                          'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                                 'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', '[@R1]', 64), 1)]))],
                                 'to': 'cell_vm_macro_expand'},
                                {'ev': [('effect', 'gc_check', []),
                                        ('push',
                                         'frame',
                                         [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                          ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                          ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                          ('T', 64, 0, [(('v', '^cell_vm_begin_expand_primitive_load', 64), 1)])])],
                                 'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '[[@R2]+8]', 64), 1)])), False),
                                            (('b', 'zero', ('T', 64, 7, [(('v', '[[@R2]]', 64), -1)])), True),
                                            (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), False),
                                            (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])), True)],
                                 'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                          'R1': ('T', 64, 0, [(('v', '[[[@R1]+16]+8]', 64), 1)]),
                                          'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                          'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                                 'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', '[@R1]', 64), 1)]))],
                                 'to': 'cell_vm_eval'},
                                {'ev': [('effect', 'gc_check', []),
                                        ('push',
                                         'frame',
                                         [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                          ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                          ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                          ('T', 64, 0, [(('v', '^cell_vm_begin_expand_macro', 64), 1)])])],
                                 'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '[[@R2]+8]', 64), 1)])), False),
                                            (('b', 'zero', ('T', 64, 7, [(('v', '[[@R2]]', 64), -1)])), True),
                                            (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), False),
                                            (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])), False)],
                                 'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                          'R1': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                          'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                          'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                                 'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', '[@R1]', 64), 1)]))],
                                 'to': 'cell_vm_macro_expand'},
                                {'ev': [('effect', 'gc_check', []),
                                        ('push',
                                         'frame',
                                         [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                          ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                          ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                          ('T', 64, 0, [(('v', '^cell_vm_begin_expand_macro', 64), 1)])])],
                                 'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '[[@R2]+8]', 64), 1)])), False), (('b', 'zero', ('T', 64, 7, [(('v', '[[@R2]]', 64), -1)])), False)],
                                 'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                          'R1': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                          'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                          'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                                 'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', '[@R1]', 64), 1)]))],
                                 'to': 'cell_vm_macro_expand'},
                                {'ev': [('effect', 'expand_variable', [('T', 64, 0, [(('v', '[[@R2]+8]', 64), 1)]), ('T', 64, 0, [(('v', '^cell_nil', 64), 1)])]),
                                        ('push',
                                         'frame',
                                         [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                          ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                          ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                          ('T', 64, 0, [(('v', '^cell_vm_begin_expand_eval', 64), 1)])])],
                                 'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '[[@R2]+8]', 64), 1)])), True)],
                                 'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                          'R1': ('T', 64, 0, [(('v', '[[@R2]+8]', 64), 1)]),
                                          'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                          'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                                 'stores': [],
                                 'to': 'cell_vm_eval'}],
 'cell_vm_begin_expand_primitive_load': [{'ev': [('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])]),
                                                 ('effect', 'read_input_file_env', [('T', 64, 0, [(('v', '[@R0]', 64), 1)])]),
                                                 ('pop', 'own', []),
                                                 ('effect', 'set_current_input_port', [('T', 64, 0, [(('v', '[@R1]', 64), 1)])]),
                                                 ('effect', 'gc_check', []),
                                                 ('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', 'append2(([cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+16]), ([[@R2]+16]))', 64), 1)]),
                                                   ('T', 64, 0, [(('v', 'append2(([cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+16]), ([[@R2]+16]))', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_begin_expand_primitive_load', 64), 1)])])],
                                          'guards': [(('b', 'zero', ('T', 64, 6, [(('v', '[[@R1]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+16]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[[@R2]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 0, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), True),
                                                     (('b',
                                                       'zero',
                                                       ('T',
                                                        64,
                                                        0,
                                                        [(('v', '[[append2(([cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+16]), ([[@R2]+16]))+8]+8]', 64), -1),
                                                         (('v', '^cell_symbol_primitive_load', 64), 1)])),
                                                      True)],
                                          'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   'R1': ('T', 64, 0, [(('v', '[[[append2(([cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+16]), ([[@R2]+16]))+8]+16]+8]', 64), 1)]),
                                                   'R2': ('T', 64, 0, [(('v', 'append2(([cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+16]), ([[@R2]+16]))', 64), 1)]),
                                                   'R3': ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])},
                                          'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', 'cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))', 64), 1)]))],
                                          'to': 'cell_vm_eval'},
                                         {'ev': [('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])]),
                                                 ('effect', 'read_input_file_env', [('T', 64, 0, [(('v', '[@R0]', 64), 1)])]),
                                                 ('pop', 'own', []),
                                                 ('effect', 'set_current_input_port', [('T', 64, 0, [(('v', '[@R1]', 64), 1)])]),
                                                 ('effect', 'gc_check', []),
                                                 ('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', 'append2(([cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+16]), ([[@R2]+16]))', 64), 1)]),
                                                   ('T', 64, 0, [(('v', 'append2(([cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+16]), ([[@R2]+16]))', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_begin_expand_macro', 64), 1)])])],
                                          'guards': [(('b', 'zero', ('T', 64, 6, [(('v', '[[@R1]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+16]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[[@R2]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 0, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), True),
                                                     (('b',
                                                       'zero',
                                                       ('T',
                                                        64,
                                                        0,
                                                        [(('v', '[[append2(([cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+16]), ([[@R2]+16]))+8]+8]', 64), -1),
                                                         (('v', '^cell_symbol_primitive_load', 64), 1)])),
                                                      False)],
                                          'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   'R1': ('T', 64, 0, [(('v', '[append2(([cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+16]), ([[@R2]+16]))+8]', 64), 1)]),
                                                   'R2': ('T', 64, 0, [(('v', 'append2(([cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+16]), ([[@R2]+16]))', 64), 1)]),
                                                   'R3': ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])},
                                          'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', 'cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))', 64), 1)]))],
                                          'to': 'cell_vm_macro_expand'},
                                         {'ev': [('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])]),
                                                 ('effect', 'read_input_file_env', [('T', 64, 0, [(('v', '[@R0]', 64), 1)])]),
                                                 ('pop', 'own', []),
                                                 ('effect', 'set_current_input_port', [('T', 64, 0, [(('v', '[@R1]', 64), 1)])]),
                                                 ('effect', 'gc_check', []),
                                                 ('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_begin_expand_primitive_load', 64), 1)])])],
                                          'guards': [(('b', 'zero', ('T', 64, 6, [(('v', '[[@R1]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+16]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[[@R2]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 0, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                                                     (('b', 'zero', ('T', 64, 0, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])),
                                                      True)],
                                          'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   'R1': ('T', 64, 0, [(('v', '[[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+16]+8]', 64), 1)]),
                                                   'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   'R3': ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])},
                                          'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', 'cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))', 64), 1)]))],
                                          'to': 'cell_vm_eval'},
                                         {'ev': [('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])]),
                                                 ('effect', 'read_input_file_env', [('T', 64, 0, [(('v', '[@R0]', 64), 1)])]),
                                                 ('pop', 'own', []),
                                                 ('effect', 'set_current_input_port', [('T', 64, 0, [(('v', '[@R1]', 64), 1)])]),
                                                 ('effect', 'gc_check', []),
                                                 ('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_begin_expand_macro', 64), 1)])])],
                                          'guards': [(('b', 'zero', ('T', 64, 6, [(('v', '[[@R1]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+16]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[[@R2]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 0, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                                                     (('b', 'zero', ('T', 64, 0, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])),
                                                      False)],
                                          'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   'R1': ('T', 64, 0, [(('v', 'cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))', 64), 1)]),
                                                   'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   'R3': ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])},
                                          'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', 'cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))', 64), 1)]))],
                                          'to': 'cell_vm_macro_expand'},
                                         {'ev': [('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])]),
                                                 ('effect', 'read_input_file_env', [('T', 64, 0, [(('v', '[@R0]', 64), 1)])]),
                                                 ('pop', 'own', []),
                                                 ('effect', 'set_current_input_port', [('T', 64, 0, [(('v', '[@R1]', 64), 1)])]),
                                                 ('effect', 'gc_check', []),
                                                 ('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_begin_expand_primitive_load', 64), 1)])])],
                                          'guards': [(('b', 'zero', ('T', 64, 6, [(('v', '[[@R1]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+16]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[[@R2]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))]', 64), -1)])), False),
                                                     (('b', 'zero', ('T', 64, 0, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])),
                                                      True)],
                                          'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   'R1': ('T', 64, 0, [(('v', '[[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+16]+8]', 64), 1)]),
                                                   'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   'R3': ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])},
                                          'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', 'cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))', 64), 1)]))],
                                          'to': 'cell_vm_eval'},
                                         {'ev': [('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])]),
                                                 ('effect', 'read_input_file_env', [('T', 64, 0, [(('v', '[@R0]', 64), 1)])]),
                                                 ('pop', 'own', []),
                                                 ('effect', 'set_current_input_port', [('T', 64, 0, [(('v', '[@R1]', 64), 1)])]),
                                                 ('effect', 'gc_check', []),
                                                 ('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_begin_expand_macro', 64), 1)])])],
                                          'guards': [(('b', 'zero', ('T', 64, 6, [(('v', '[[@R1]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+16]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[[@R2]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))]', 64), -1)])), False),
                                                     (('b', 'zero', ('T', 64, 0, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])),
                                                      False)],
                                          'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   'R1': ('T', 64, 0, [(('v', 'cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))', 64), 1)]),
                                                   'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   'R3': ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])},
                                          'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', 'cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))', 64), 1)]))],
                                          'to': 'cell_vm_macro_expand'},
                                         {'ev': [('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])]),
                                                 ('effect', 'read_input_file_env', [('T', 64, 0, [(('v', '[@R0]', 64), 1)])]),
                                                 ('pop', 'own', []),
                                                 ('effect', 'set_current_input_port', [('T', 64, 0, [(('v', '[@R1]', 64), 1)])]),
                                                 ('effect', 'gc_check', []),
                                                 ('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_begin_expand_macro', 64), 1)])])],
                                          'guards': [(('b', 'zero', ('T', 64, 6, [(('v', '[[@R1]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+16]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[[@R2]]', 64), -1)])), False)],
                                          'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   'R1': ('T', 64, 0, [(('v', 'cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))', 64), 1)]),
                                                   'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   'R3': ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])},
                                          'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', 'cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))', 64), 1)]))],
                                          'to': 'cell_vm_macro_expand'},
                                         {'ev': [('effect', 'set_current_input_port', [('T', 64, 0, [(('v', 'open_input_file(([@R1]))', 64), 1)])]),
                                                 ('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])]),
                                                 ('effect', 'read_input_file_env', [('T', 64, 0, [(('v', '[@R0]', 64), 1)])]),
                                                 ('pop', 'own', []),
                                                 ('effect', 'set_current_input_port', [('T', 64, 0, [(('v', '[@R1]', 64), 1)])]),
                                                 ('effect', 'gc_check', []),
                                                 ('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', 'append2(([cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+16]), ([[@R2]+16]))', 64), 1)]),
                                                   ('T', 64, 0, [(('v', 'append2(([cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+16]), ([[@R2]+16]))', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_begin_expand_primitive_load', 64), 1)])])],
                                          'guards': [(('b', 'zero', ('T', 64, 6, [(('v', '[[@R1]]', 64), -1)])), False),
                                                     (('b', 'zero', ('T', 64, 11, [(('v', '[[@R1]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[[@R2]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 0, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), True),
                                                     (('b',
                                                       'zero',
                                                       ('T',
                                                        64,
                                                        0,
                                                        [(('v', '[[append2(([cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+16]), ([[@R2]+16]))+8]+8]', 64), -1),
                                                         (('v', '^cell_symbol_primitive_load', 64), 1)])),
                                                      True)],
                                          'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   'R1': ('T', 64, 0, [(('v', '[[[append2(([cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+16]), ([[@R2]+16]))+8]+16]+8]', 64), 1)]),
                                                   'R2': ('T', 64, 0, [(('v', 'append2(([cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+16]), ([[@R2]+16]))', 64), 1)]),
                                                   'R3': ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])},
                                          'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', 'cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))', 64), 1)]))],
                                          'to': 'cell_vm_eval'},
                                         {'ev': [('effect', 'set_current_input_port', [('T', 64, 0, [(('v', 'open_input_file(([@R1]))', 64), 1)])]),
                                                 ('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])]),
                                                 ('effect', 'read_input_file_env', [('T', 64, 0, [(('v', '[@R0]', 64), 1)])]),
                                                 ('pop', 'own', []),
                                                 ('effect', 'set_current_input_port', [('T', 64, 0, [(('v', '[@R1]', 64), 1)])]),
                                                 ('effect', 'gc_check', []),
                                                 ('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', 'append2(([cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+16]), ([[@R2]+16]))', 64), 1)]),
                                                   ('T', 64, 0, [(('v', 'append2(([cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+16]), ([[@R2]+16]))', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_begin_expand_macro', 64), 1)])])],
                                          'guards': [(('b', 'zero', ('T', 64, 6, [(('v', '[[@R1]]', 64), -1)])), False),
                                                     (('b', 'zero', ('T', 64, 11, [(('v', '[[@R1]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[[@R2]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 0, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), True),
                                                     (('b',
                                                       'zero',
                                                       ('T',
                                                        64,
                                                        0,
                                                        [(('v', '[[append2(([cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+16]), ([[@R2]+16]))+8]+8]', 64), -1),
                                                         (('v', '^cell_symbol_primitive_load', 64), 1)])),
                                                      False)],
                                          'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   'R1': ('T', 64, 0, [(('v', '[append2(([cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+16]), ([[@R2]+16]))+8]', 64), 1)]),
                                                   'R2': ('T', 64, 0, [(('v', 'append2(([cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+16]), ([[@R2]+16]))', 64), 1)]),
                                                   'R3': ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])},
                                          'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', 'cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))', 64), 1)]))],
                                          'to': 'cell_vm_macro_expand'},
                                         {'ev': [('effect', 'set_current_input_port', [('T', 64, 0, [(('v', 'open_input_file(([@R1]))', 64), 1)])]),
                                                 ('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])]),
                                                 ('effect', 'read_input_file_env', [('T', 64, 0, [(('v', '[@R0]', 64), 1)])]),
                                                 ('pop', 'own', []),
                                                 ('effect', 'set_current_input_port', [('T', 64, 0, [(('v', '[@R1]', 64), 1)])]),
                                                 ('effect', 'gc_check', []),
                                                 ('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_begin_expand_primitive_load', 64), 1)])])],
                                          'guards': [(('b', 'zero', ('T', 64, 6, [(('v', '[[@R1]]', 64), -1)])), False),
                                                     (('b', 'zero', ('T', 64, 11, [(('v', '[[@R1]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[[@R2]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 0, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                                                     (('b', 'zero', ('T', 64, 0, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])),
                                                      True)],
                                          'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   'R1': ('T', 64, 0, [(('v', '[[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+16]+8]', 64), 1)]),
                                                   'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   'R3': ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])},
                                          'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', 'cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))', 64), 1)]))],
                                          'to': 'cell_vm_eval'},
                                         {'ev': [('effect', 'set_current_input_port', [('T', 64, 0, [(('v', 'open_input_file(([@R1]))', 64), 1)])]),
                                                 ('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])]),
                                                 ('effect', 'read_input_file_env', [('T', 64, 0, [(('v', '[@R0]', 64), 1)])]),
                                                 ('pop', 'own', []),
                                                 ('effect', 'set_current_input_port', [('T', 64, 0, [(('v', '[@R1]', 64), 1)])]),
                                                 ('effect', 'gc_check', []),
                                                 ('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_begin_expand_macro', 64), 1)])])],
                                          'guards': [(('b', 'zero', ('T', 64, 6, [(('v', '[[@R1]]', 64), -1)])), False),
                                                     (('b', 'zero', ('T', 64, 11, [(('v', '[[@R1]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[[@R2]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 0, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                                                     (('b', 'zero', ('T', 64, 0, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])),
                                                      False)],
                                          'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   'R1': ('T', 64, 0, [(('v', 'cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))', 64), 1)]),
                                                   'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   'R3': ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])},
                                          'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', 'cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))', 64), 1)]))],
                                          'to': 'cell_vm_macro_expand'},
                                         {'ev': [('effect', 'set_current_input_port', [('T', 64, 0, [(('v', 'open_input_file(([@R1]))', 64), 1)])]),
                                                 ('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])]),
                                                 ('effect', 'read_input_file_env', [('T', 64, 0, [(('v', '[@R0]', 64), 1)])]),
                                                 ('pop', 'own', []),
                                                 ('effect', 'set_current_input_port', [('T', 64, 0, [(('v', '[@R1]', 64), 1)])]),
                                                 ('effect', 'gc_check', []),
                                                 ('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_begin_expand_primitive_load', 64), 1)])])],
                                          'guards': [(('b', 'zero', ('T', 64, 6, [(('v', '[[@R1]]', 64), -1)])), False),
                                                     (('b', 'zero', ('T', 64, 11, [(('v', '[[@R1]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[[@R2]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))]', 64), -1)])), False),
                                                     (('b', 'zero', ('T', 64, 0, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])),
                                                      True)],
                                          'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   'R1': ('T', 64, 0, [(('v', '[[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+16]+8]', 64), 1)]),
                                                   'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   'R3': ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])},
                                          'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', 'cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))', 64), 1)]))],
                                          'to': 'cell_vm_eval'},
                                         {'ev': [('effect', 'set_current_input_port', [('T', 64, 0, [(('v', 'open_input_file(([@R1]))', 64), 1)])]),
                                                 ('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])]),
                                                 ('effect', 'read_input_file_env', [('T', 64, 0, [(('v', '[@R0]', 64), 1)])]),
                                                 ('pop', 'own', []),
                                                 ('effect', 'set_current_input_port', [('T', 64, 0, [(('v', '[@R1]', 64), 1)])]),
                                                 ('effect', 'gc_check', []),
                                                 ('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_begin_expand_macro', 64), 1)])])],
                                          'guards': [(('b', 'zero', ('T', 64, 6, [(('v', '[[@R1]]', 64), -1)])), False),
                                                     (('b', 'zero', ('T', 64, 11, [(('v', '[[@R1]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[[@R2]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))]', 64), -1)])), False),
                                                     (('b', 'zero', ('T', 64, 0, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])),
                                                      False)],
                                          'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   'R1': ('T', 64, 0, [(('v', 'cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))', 64), 1)]),
                                                   'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   'R3': ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])},
                                          'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', 'cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))', 64), 1)]))],
                                          'to': 'cell_vm_macro_expand'},
                                         {'ev': [('effect', 'set_current_input_port', [('T', 64, 0, [(('v', 'open_input_file(([@R1]))', 64), 1)])]),
                                                 ('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])]),
                                                 ('effect', 'read_input_file_env', [('T', 64, 0, [(('v', '[@R0]', 64), 1)])]),
                                                 ('pop', 'own', []),
                                                 ('effect', 'set_current_input_port', [('T', 64, 0, [(('v', '[@R1]', 64), 1)])]),
                                                 ('effect', 'gc_check', []),
                                                 ('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_begin_expand_macro', 64), 1)])])],
                                          'guards': [(('b', 'zero', ('T', 64, 6, [(('v', '[[@R1]]', 64), -1)])), False),
                                                     (('b', 'zero', ('T', 64, 11, [(('v', '[[@R1]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[[@R2]]', 64), -1)])), False)],
                                          'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   'R1': ('T', 64, 0, [(('v', 'cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))', 64), 1)]),
                                                   'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   'R3': ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])},
                                          'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', 'cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))', 64), 1)]))],
                                          'to': 'cell_vm_macro_expand'},
                                         {'ev': [('effect', 'set_current_input_port', [('T', 64, 0, [(('v', '[@R1]', 64), 1)])]),
                                                 ('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])]),
                                                 ('effect', 'read_input_file_env', [('T', 64, 0, [(('v', '[@R0]', 64), 1)])]),
                                                 ('pop', 'own', []),
                                                 ('effect', 'set_current_input_port', [('T', 64, 0, [(('v', '[@R1]', 64), 1)])]),
                                                 ('effect', 'gc_check', []),
                                                 ('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', 'append2(([cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+16]), ([[@R2]+16]))', 64), 1)]),
                                                   ('T', 64, 0, [(('v', 'append2(([cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+16]), ([[@R2]+16]))', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_begin_expand_primitive_load', 64), 1)])])],
                                          'guards': [(('b', 'zero', ('T', 64, 6, [(('v', '[[@R1]]', 64), -1)])), False),
                                                     (('b', 'zero', ('T', 64, 11, [(('v', '[[@R1]]', 64), -1)])), False),
                                                     (('b', 'zero', ('T', 64, 8, [(('v', '[[@R1]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[[@R2]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 0, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), True),
                                                     (('b',
                                                       'zero',
                                                       ('T',
                                                        64,
                                                        0,
                                                        [(('v', '[[append2(([cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+16]), ([[@R2]+16]))+8]+8]', 64), -1),
                                                         (('v', '^cell_symbol_primitive_load', 64), 1)])),
                                                      True)],
                                          'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   'R1': ('T', 64, 0, [(('v', '[[[append2(([cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+16]), ([[@R2]+16]))+8]+16]+8]', 64), 1)]),
                                                   'R2': ('T', 64, 0, [(('v', 'append2(([cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+16]), ([[@R2]+16]))', 64), 1)]),
                                                   'R3': ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])},
                                          'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', 'cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))', 64), 1)]))],
                                          'to': 'cell_vm_eval'},
                                         {'ev': [('effect', 'set_current_input_port', [('T', 64, 0, [(('v', '[@R1]', 64), 1)])]),
                                                 ('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])]),
                                                 ('effect', 'read_input_file_env', [('T', 64, 0, [(('v', '[@R0]', 64), 1)])]),
                                                 ('pop', 'own', []),
                                                 ('effect', 'set_current_input_port', [('T', 64, 0, [(('v', '[@R1]', 64), 1)])]),
                                                 ('effect', 'gc_check', []),
                                                 ('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', 'append2(([cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+16]), ([[@R2]+16]))', 64), 1)]),
                                                   ('T', 64, 0, [(('v', 'append2(([cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+16]), ([[@R2]+16]))', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_begin_expand_macro', 64), 1)])])],
                                          'guards': [(('b', 'zero', ('T', 64, 6, [(('v', '[[@R1]]', 64), -1)])), False),
                                                     (('b', 'zero', ('T', 64, 11, [(('v', '[[@R1]]', 64), -1)])), False),
                                                     (('b', 'zero', ('T', 64, 8, [(('v', '[[@R1]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[[@R2]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 0, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), True),
                                                     (('b',
                                                       'zero',
                                                       ('T',
                                                        64,
                                                        0,
                                                        [(('v', '[[append2(([cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+16]), ([[@R2]+16]))+8]+8]', 64), -1),
                                                         (('v', '^cell_symbol_primitive_load', 64), 1)])),
                                                      False)],
                                          'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   'R1': ('T', 64, 0, [(('v', '[append2(([cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+16]), ([[@R2]+16]))+8]', 64), 1)]),
                                                   'R2': ('T', 64, 0, [(('v', 'append2(([cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+16]), ([[@R2]+16]))', 64), 1)]),
                                                   'R3': ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])},
                                          'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', 'cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))', 64), 1)]))],
                                          'to': 'cell_vm_macro_expand'},
                                         {'ev': [('effect', 'set_current_input_port', [('T', 64, 0, [(('v', '[@R1]', 64), 1)])]),
                                                 ('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])]),
                                                 ('effect', 'read_input_file_env', [('T', 64, 0, [(('v', '[@R0]', 64), 1)])]),
                                                 ('pop', 'own', []),
                                                 ('effect', 'set_current_input_port', [('T', 64, 0, [(('v', '[@R1]', 64), 1)])]),
                                                 ('effect', 'gc_check', []),
                                                 ('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_begin_expand_primitive_load', 64), 1)])])],
                                          'guards': [(('b', 'zero', ('T', 64, 6, [(('v', '[[@R1]]', 64), -1)])), False),
                                                     (('b', 'zero', ('T', 64, 11, [(('v', '[[@R1]]', 64), -1)])), False),
                                                     (('b', 'zero', ('T', 64, 8, [(('v', '[[@R1]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[[@R2]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 0, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                                                     (('b', 'zero', ('T', 64, 0, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])),
                                                      True)],
                                          'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   'R1': ('T', 64, 0, [(('v', '[[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+16]+8]', 64), 1)]),
                                                   'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   'R3': ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])},
                                          'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', 'cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))', 64), 1)]))],
                                          'to': 'cell_vm_eval'},
                                         {'ev': [('effect', 'set_current_input_port', [('T', 64, 0, [(('v', '[@R1]', 64), 1)])]),
                                                 ('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])]),
                                                 ('effect', 'read_input_file_env', [('T', 64, 0, [(('v', '[@R0]', 64), 1)])]),
                                                 ('pop', 'own', []),
                                                 ('effect', 'set_current_input_port', [('T', 64, 0, [(('v', '[@R1]', 64), 1)])]),
                                                 ('effect', 'gc_check', []),
                                                 ('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_begin_expand_macro', 64), 1)])])],
                                          'guards': [(('b', 'zero', ('T', 64, 6, [(('v', '[[@R1]]', 64), -1)])), False),
                                                     (('b', 'zero', ('T', 64, 11, [(('v', '[[@R1]]', 64), -1)])), False),
                                                     (('b', 'zero', ('T', 64, 8, [(('v', '[[@R1]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[[@R2]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 0, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                                                     (('b', 'zero', ('T', 64, 0, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])),
                                                      False)],
                                          'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   'R1': ('T', 64, 0, [(('v', 'cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))', 64), 1)]),
                                                   'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   'R3': ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])},
                                          'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', 'cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))', 64), 1)]))],
                                          'to': 'cell_vm_macro_expand'},
                                         {'ev': [('effect', 'set_current_input_port', [('T', 64, 0, [(('v', '[@R1]', 64), 1)])]),
                                                 ('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])]),
                                                 ('effect', 'read_input_file_env', [('T', 64, 0, [(('v', '[@R0]', 64), 1)])]),
                                                 ('pop', 'own', []),
                                                 ('effect', 'set_current_input_port', [('T', 64, 0, [(('v', '[@R1]', 64), 1)])]),
                                                 ('effect', 'gc_check', []),
                                                 ('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_begin_expand_primitive_load', 64), 1)])])],
                                          'guards': [(('b', 'zero', ('T', 64, 6, [(('v', '[[@R1]]', 64), -1)])), False),
                                                     (('b', 'zero', ('T', 64, 11, [(('v', '[[@R1]]', 64), -1)])), False),
                                                     (('b', 'zero', ('T', 64, 8, [(('v', '[[@R1]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[[@R2]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))]', 64), -1)])), False),
                                                     (('b', 'zero', ('T', 64, 0, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])),
                                                      True)],
                                          'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   'R1': ('T', 64, 0, [(('v', '[[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+16]+8]', 64), 1)]),
                                                   'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   'R3': ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])},
                                          'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', 'cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))', 64), 1)]))],
                                          'to': 'cell_vm_eval'},
                                         {'ev': [('effect', 'set_current_input_port', [('T', 64, 0, [(('v', '[@R1]', 64), 1)])]),
                                                 ('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])]),
                                                 ('effect', 'read_input_file_env', [('T', 64, 0, [(('v', '[@R0]', 64), 1)])]),
                                                 ('pop', 'own', []),
                                                 ('effect', 'set_current_input_port', [('T', 64, 0, [(('v', '[@R1]', 64), 1)])]),
                                                 ('effect', 'gc_check', []),
                                                 ('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_begin_expand_macro', 64), 1)])])],
                                          'guards': [(('b', 'zero', ('T', 64, 6, [(('v', '[[@R1]]', 64), -1)])), False),
                                                     (('b', 'zero', ('T', 64, 11, [(('v', '[[@R1]]', 64), -1)])), False),
                                                     (('b', 'zero', ('T', 64, 8, [(('v', '[[@R1]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[[@R2]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))]', 64), -1)])), False),
                                                     (('b', 'zero', ('T', 64, 0, [(('v', '[cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))+8]', 64), -1), (('v', '^cell_symbol_primitive_load', 64), 1)])),
                                                      False)],
                                          'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   'R1': ('T', 64, 0, [(('v', 'cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))', 64), 1)]),
                                                   'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   'R3': ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])},
                                          'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', 'cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))', 64), 1)]))],
                                          'to': 'cell_vm_macro_expand'},
                                         {'ev': [('effect', 'set_current_input_port', [('T', 64, 0, [(('v', '[@R1]', 64), 1)])]),
                                                 ('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])]),
                                                 ('effect', 'read_input_file_env', [('T', 64, 0, [(('v', '[@R0]', 64), 1)])]),
                                                 ('pop', 'own', []),
                                                 ('effect', 'set_current_input_port', [('T', 64, 0, [(('v', '[@R1]', 64), 1)])]),
                                                 ('effect', 'gc_check', []),
                                                 ('push',
                                                  'frame',
                                                  [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   ('T', 64, 0, [(('v', '^cell_vm_begin_expand_macro', 64), 1)])])],
                                          'guards': [(('b', 'zero', ('T', 64, 6, [(('v', '[[@R1]]', 64), -1)])), False),
                                                     (('b', 'zero', ('T', 64, 11, [(('v', '[[@R1]]', 64), -1)])), False),
                                                     (('b', 'zero', ('T', 64, 8, [(('v', '[[@R1]]', 64), -1)])), True),
                                                     (('b', 'zero', ('T', 64, 7, [(('v', '[[@R2]]', 64), -1)])), False)],
                                          'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   'R1': ('T', 64, 0, [(('v', 'cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))', 64), 1)]),
                                                   'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   'R3': ('T', 64, 0, [(('v', '^cell_vm_return', 64), 1)])},
                                          'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', 'cons((^cell_symbol_begin), (read_input_file_env(([@R0]))))', 64), 1)]))],
                                          'to': 'cell_vm_macro_expand'},
                                         {'ev': [('fail', 'assert_msg', [])],
                                          'guards': [(('b', 'zero', ('T', 64, 6, [(('v', '[[@R1]]', 64), -1)])), True), (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+16]', 64), -1)])), False)],
                                          'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   'R1': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                                   'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                                          'stores': [],
                                          'to': 'fail'},
                                         {'ev': [('fail', 'assert_msg', [])],
                                          'guards': [(('b', 'zero', ('T', 64, 6, [(('v', '[[@R1]]', 64), -1)])), False),
                                                     (('b', 'zero', ('T', 64, 11, [(('v', '[[@R1]]', 64), -1)])), False),
                                                     (('b', 'zero', ('T', 64, 8, [(('v', '[[@R1]]', 64), -1)])), False)],
                                          'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                   'R1': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                                   'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                   'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                                          'stores': [],
                                          'to': 'fail'}],
 'cell_vm_begin_primitive_load': [{'ev': [],
                                   'guards': [(('b', 'zero', ('T', 64, 7, [(('v', '[[@R2]]', 64), -1)])), True),
                                              (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), True),
                                              (('b', 'zero', ('T', 64, 0, [(('v', '[append2(([[@R1]+16]), ([[@R2]+16]))+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), True)],
                                   'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                            'R1': ('T', 64, 0, [(('v', '[append2(([[@R1]+16]), ([[@R2]+16]))+8]', 64), 1)]),
                                            'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                            'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                                   'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', '[@R1]', 64), 1)]))],
                                   'to': 'cell_vm_eval'},
                                  {'ev': [('push',
                                           'frame',
                                           [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                            ('T', 64, 0, [(('v', 'append2(([[@R1]+16]), ([[@R2]+16]))', 64), 1)]),
                                            ('T', 64, 0, [(('v', 'append2(([[@R1]+16]), ([[@R2]+16]))', 64), 1)]),
                                            ('T', 64, 0, [(('v', '^cell_vm_begin_eval', 64), 1)])])],
                                   'guards': [(('b', 'zero', ('T', 64, 7, [(('v', '[[@R2]]', 64), -1)])), True),
                                              (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), True),
                                              (('b', 'zero', ('T', 64, 0, [(('v', '[append2(([[@R1]+16]), ([[@R2]+16]))+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), False)],
                                   'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                            'R1': ('T', 64, 0, [(('v', '[append2(([[@R1]+16]), ([[@R2]+16]))+8]', 64), 1)]),
                                            'R2': ('T', 64, 0, [(('v', 'append2(([[@R1]+16]), ([[@R2]+16]))', 64), 1)]),
                                            'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                                   'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', '[@R1]', 64), 1)]))],
                                   'to': 'cell_vm_eval'},
                                  {'ev': [],
                                   'guards': [(('b', 'zero', ('T', 64, 7, [(('v', '[[@R2]]', 64), -1)])), True),
                                              (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R2]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), True)],
                                   'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                            'R1': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                            'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                            'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                                   'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', '[@R1]', 64), 1)]))],
                                   'to': 'cell_vm_eval'},
                                  {'ev': [('push',
                                           'frame',
                                           [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                            ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                            ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                            ('T', 64, 0, [(('v', '^cell_vm_begin_eval', 64), 1)])])],
                                   'guards': [(('b', 'zero', ('T', 64, 7, [(('v', '[[@R2]]', 64), -1)])), True),
                                              (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R2]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), False)],
                                   'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                            'R1': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                            'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                            'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                                   'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', '[@R1]', 64), 1)]))],
                                   'to': 'cell_vm_eval'},
                                  {'ev': [],
                                   'guards': [(('b', 'zero', ('T', 64, 7, [(('v', '[[@R2]]', 64), -1)])), True),
                                              (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), False),
                                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R2]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), True)],
                                   'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                            'R1': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                            'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                            'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                                   'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', '[@R1]', 64), 1)]))],
                                   'to': 'cell_vm_eval'},
                                  {'ev': [('push',
                                           'frame',
                                           [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                            ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                            ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                            ('T', 64, 0, [(('v', '^cell_vm_begin_eval', 64), 1)])])],
                                   'guards': [(('b', 'zero', ('T', 64, 7, [(('v', '[[@R2]]', 64), -1)])), True),
                                              (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), False),
                                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R2]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), False)],
                                   'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                            'R1': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                            'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                            'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                                   'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', '[@R1]', 64), 1)]))],
                                   'to': 'cell_vm_eval'},
                                  {'ev': [],
                                   'guards': [(('b', 'zero', ('T', 64, 7, [(('v', '[[@R2]]', 64), -1)])), False), (('b', 'zero', ('T', 64, 0, [(('v', '[[@R2]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), True)],
                                   'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                            'R1': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                            'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                            'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                                   'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', '[@R1]', 64), 1)]))],
                                   'to': 'cell_vm_eval'},
                                  {'ev': [('push',
                                           'frame',
                                           [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                            ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                            ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                            ('T', 64, 0, [(('v', '^cell_vm_begin_eval', 64), 1)])])],
                                   'guards': [(('b', 'zero', ('T', 64, 7, [(('v', '[[@R2]]', 64), -1)])), False), (('b', 'zero', ('T', 64, 0, [(('v', '[[@R2]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), False)],
                                   'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                            'R1': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                            'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                            'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                                   'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', '[@R1]', 64), 1)]))],
                                   'to': 'cell_vm_eval'}],
 'cell_vm_call_with_current_continuation2': [{'ev': [('effect', 'make_vector_', [('T', 64, 0, [(('v', '[@STACK_SIZE]', 64), 1), (('v', '[@g_stack]', 64), -1)]), ('T', 64, 0, [(('v', '^cell_unspecified', 64), 1)])]),
                                                     ('pop', 'outer', [])],
                                              'guards': [(('b', 'ult', ('T', 64, 0, [(('iv', 'k#0'), 1), (('v', '[@g_stack]', 64), 1)]), ('T', 64, 0, [(('v', '[@STACK_SIZE]', 64), 1)])), False)],
                                              'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                                                       'R1': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                                       'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                                                       'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                                              'stores': [('[@R2]', ('T', 64, 16, []), 8, ('T', 64, 0, [(('v', 'make_vector_(([@STACK_SIZE]+-1*[@g_stack]), (^cell_unspecified))', 64), 1)]))],
                                              'to': 'dispatch'},
                                             {'ev': [('effect', 'make_vector_', [('T', 64, 0, [(('v', '[@STACK_SIZE]', 64), 1), (('v', '[@g_stack]', 64), -1)]), ('T', 64, 0, [(('v', '^cell_unspecified', 64), 1)])]),
                                                     ('effect',
                                                      'vector_set_x_',
                                                      [('T', 64, 0, [(('v', 'make_vector_(([@STACK_SIZE]+-1*[@g_stack]), (^cell_unspecified))', 64), 1)]),
                                                       ('T', 64, 0, [(('iv', 'k#0'), 1)]),
                                                       ('T', 64, 0, [(('v', '[[@g_stack_array]+(8*k#1+8*[@g_stack]):64]', 64), 1)])])],
                                              'guards': [(('b', 'ult', ('T', 64, 0, [(('iv', 'k#0'), 1), (('v', '[@g_stack]', 64), 1)]), ('T', 64, 0, [(('v', '[@STACK_SIZE]', 64), 1)])), True)],
                                              'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                                       'R1': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                                       'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                       'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                                              'stores': [],
                                              'to': 'loop'}],
 'cell_vm_call_with_values2': [{'ev': [],
                                'guards': [(('b', 'zero', ('T', 64, 14, [(('v', '[[@R1]]', 64), -1)])), True)],
                                'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                         'R1': ('T', 64, 0, [(('v', 'cons(([[[@R2]+16]+8]), ([[@R1]+16]))', 64), 1)]),
                                         'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                         'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                                'stores': [],
                                'to': 'cell_vm_apply'},
                               {'ev': [],
                                'guards': [(('b', 'zero', ('T', 64, 14, [(('v', '[[@R1]]', 64), -1)])), False)],
                                'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                         'R1': ('T', 64, 0, [(('v', 'cons(([[[@R2]+16]+8]), ([@R1]))', 64), 1)]),
                                         'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                         'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                                'stores': [],
                                'to': 'cell_vm_apply'}],
 'cell_vm_eval': [{'ev': [('push',
                           'frame',
                           [('T', 64, 0, [(('v', '[@R0]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '^cell_vm_eval_pmatch_car', 64), 1)])])],
                   'guards': [(('b', 'zero', ('T', 32, 7, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_car', 64), 1)])), True)],
                   'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                            'R1': ('T', 64, 0, [(('v', '[[[@R1]+16]+8]', 64), 1)]),
                            'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                            'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                   'stores': [],
                   'to': 'cell_vm_eval'},
                  {'ev': [('push',
                           'frame',
                           [('T', 64, 0, [(('v', '[@R0]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '^cell_vm_eval_pmatch_cdr', 64), 1)])])],
                   'guards': [(('b', 'zero', ('T', 32, 7, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_car', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_cdr', 64), 1)])), True)],
                   'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                            'R1': ('T', 64, 0, [(('v', '[[[@R1]+16]+8]', 64), 1)]),
                            'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                            'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                   'stores': [],
                   'to': 'cell_vm_eval'},
                  {'ev': [('pop', 'outer', [])],
                   'guards': [(('b', 'zero', ('T', 32, 7, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_car', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_cdr', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_quote', 64), 1)])), True)],
                   'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                            'R1': ('T', 64, 0, [(('v', '[[[@R1]+16]+8]', 64), 1)]),
                            'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                            'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                   'stores': [],
                   'to': 'dispatch'},
                  {'ev': [],
                   'guards': [(('b', 'zero', ('T', 32, 7, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_car', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_cdr', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_quote', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), True)],
                   'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]), 'R1': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), 'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]), 'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                   'stores': [],
                   'to': 'cell_vm_begin'},
                  {'ev': [('pop', 'outer', [])],
                   'guards': [(('b', 'zero', ('T', 32, 7, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_car', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_cdr', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_quote', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_lambda', 64), 1)])), True)],
                   'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                            'R1': ('T', 64, 0, [(('v', 'make_closure_(([[[@R1]+16]+8]), ([[[@R1]+16]+16]), ([@R0]))', 64), 1)]),
                            'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                            'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                   'stores': [],
                   'to': 'dispatch'},
                  {'ev': [],
                   'guards': [(('b', 'zero', ('T', 32, 7, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_car', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_cdr', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_quote', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_lambda', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_if', 64), 1)])), True)],
                   'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                            'R1': ('T', 64, 0, [(('v', '[[@R1]+16]', 64), 1)]),
                            'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                            'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                   'stores': [],
                   'to': 'cell_vm_if'},
                  {'ev': [('push',
                           'frame',
                           [('T', 64, 0, [(('v', '[@R0]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '^cell_vm_eval_set_x', 64), 1)])])],
                   'guards': [(('b', 'zero', ('T', 32, 7, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_car', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_cdr', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_quote', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_lambda', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_if', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_set_x', 64), 1)])), True)],
                   'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                            'R1': ('T', 64, 0, [(('v', '[[[[@R1]+16]+16]+8]', 64), 1)]),
                            'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                            'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                   'stores': [],
                   'to': 'cell_vm_eval'},
                  {'ev': [('push',
                           'frame',
                           [('T', 64, 0, [(('v', '[@R0]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '^cell_vm_eval_macro_expand_eval', 64), 1)])])],
                   'guards': [(('b', 'zero', ('T', 32, 7, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_car', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_cdr', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_quote', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_lambda', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_if', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_set_x', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_vm_macro_expand', 64), 1)])), True)],
                   'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                            'R1': ('T', 64, 0, [(('v', '[[[@R1]+16]+8]', 64), 1)]),
                            'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                            'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                   'stores': [],
                   'to': 'cell_vm_eval'},
                  {'ev': [('effect', 'module_define_x', [('T', 64, 0, [(('v', '[@M0]', 64), 1)]), ('T', 64, 0, [(('v', '[[[[@R1]+16]+8]+8]', 64), 1)]), ('T', 64, 0, [(('v', '^cell_f', 64), 1)])]),
                          ('effect', 'expand_variable', [('T', 64, 0, [(('v', '[[[@R1]+16]+16]', 64), 1)]), ('T', 64, 0, [(('v', '[[[[@R1]+16]+8]+16]', 64), 1)])]),
                          ('push',
                           'frame',
                           [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                            ('T', 64, 0, [(('v', 'cons((^cell_symbol_lambda), (cons(([[[[@R1]+16]+8]+16]), ([[[@R1]+16]+16]))))', 64), 1)]),
                            ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                            ('T', 64, 0, [(('v', '^cell_vm_eval_define', 64), 1)])])],
                   'guards': [(('b', 'zero', ('T', 32, 7, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_car', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_cdr', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_quote', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_lambda', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_if', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_set_x', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_vm_macro_expand', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define', 64), 1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R0]+8]+8]', 64), -1), (('v', '^cell_closure', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define_macro', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 7, [(('v', '[[[[@R1]+16]+8]]', 64), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '^cell_f', 64), -1), (('v', 'module_variable(([@R0]), ([[[[@R1]+16]+8]+8]))', 64), 1)])), True)],
                   'regs': {'R0': ('T', 64, 0, [(('v', 'pairlis(([[[@R1]+16]+8]), ([[[@R1]+16]+8]), ([@R0]))', 64), 1)]),
                            'R1': ('T', 64, 0, [(('v', 'cons((^cell_symbol_lambda), (cons(([[[[@R1]+16]+8]+16]), ([[[@R1]+16]+16]))))', 64), 1)]),
                            'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                            'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                   'stores': [],
                   'to': 'cell_vm_eval'},
                  {'ev': [('effect', 'expand_variable', [('T', 64, 0, [(('v', '[[[@R1]+16]+16]', 64), 1)]), ('T', 64, 0, [(('v', '[[[[@R1]+16]+8]+16]', 64), 1)])]),
                          ('push',
                           'frame',
                           [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                            ('T', 64, 0, [(('v', 'cons((^cell_symbol_lambda), (cons(([[[[@R1]+16]+8]+16]), ([[[@R1]+16]+16]))))', 64), 1)]),
                            ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                            ('T', 64, 0, [(('v', '^cell_vm_eval_define', 64), 1)])])],
                   'guards': [(('b', 'zero', ('T', 32, 7, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_car', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_cdr', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_quote', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_lambda', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_if', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_set_x', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_vm_macro_expand', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define', 64), 1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R0]+8]+8]', 64), -1), (('v', '^cell_closure', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define_macro', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 7, [(('v', '[[[[@R1]+16]+8]]', 64), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '^cell_f', 64), -1), (('v', 'module_variable(([@R0]), ([[[[@R1]+16]+8]+8]))', 64), 1)])), False)],
                   'regs': {'R0': ('T', 64, 0, [(('v', 'pairlis(([[[@R1]+16]+8]), ([[[@R1]+16]+8]), ([@R0]))', 64), 1)]),
                            'R1': ('T', 64, 0, [(('v', 'cons((^cell_symbol_lambda), (cons(([[[[@R1]+16]+8]+16]), ([[[@R1]+16]+16]))))', 64), 1)]),
                            'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                            'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                   'stores': [],
                   'to': 'cell_vm_eval'},
                  {'ev': [('effect', 'module_define_x', [('T', 64, 0, [(('v', '[@M0]', 64), 1)]), ('T', 64, 0, [(('v', '[[[@R1]+16]+8]', 64), 1)]), ('T', 64, 0, [(('v', '^cell_f', 64), 1)])]),
                          ('push',
                           'frame',
                           [('T', 64, 0, [(('v', '[@R0]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '^cell_vm_eval_define', 64), 1)])])],
                   'guards': [(('b', 'zero', ('T', 32, 7, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_car', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_cdr', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_quote', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_lambda', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_if', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_set_x', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_vm_macro_expand', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define', 64), 1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R0]+8]+8]', 64), -1), (('v', '^cell_closure', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define_macro', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 7, [(('v', '[[[[@R1]+16]+8]]', 64), -1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '^cell_f', 64), -1), (('v', 'module_variable(([@R0]), ([[[@R1]+16]+8]))', 64), 1)])), True)],
                   'regs': {'R0': ('T', 64, 0, [(('v', 'cons((cons(([[[@R1]+16]+8]), ([[[@R1]+16]+8]))), ([@R0]))', 64), 1)]),
                            'R1': ('T', 64, 0, [(('v', '[[[[@R1]+16]+16]+8]', 64), 1)]),
                            'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                            'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                   'stores': [],
                   'to': 'cell_vm_eval'},
                  {'ev': [('push',
                           'frame',
                           [('T', 64, 0, [(('v', '[@R0]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '^cell_vm_eval_define', 64), 1)])])],
                   'guards': [(('b', 'zero', ('T', 32, 7, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_car', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_cdr', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_quote', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_lambda', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_if', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_set_x', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_vm_macro_expand', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define', 64), 1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R0]+8]+8]', 64), -1), (('v', '^cell_closure', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define_macro', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 7, [(('v', '[[[[@R1]+16]+8]]', 64), -1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '^cell_f', 64), -1), (('v', 'module_variable(([@R0]), ([[[@R1]+16]+8]))', 64), 1)])), False)],
                   'regs': {'R0': ('T', 64, 0, [(('v', 'cons((cons(([[[@R1]+16]+8]), ([[[@R1]+16]+8]))), ([@R0]))', 64), 1)]),
                            'R1': ('T', 64, 0, [(('v', '[[[[@R1]+16]+16]+8]', 64), 1)]),
                            'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                            'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                   'stores': [],
                   'to': 'cell_vm_eval'},
                  {'ev': [('push',
                           'frame',
                           [('T', 64, 0, [(('v', '[@R0]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '^cell_vm_eval_define', 64), 1)])])],
                   'guards': [(('b', 'zero', ('T', 32, 7, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_car', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_cdr', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_quote', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_lambda', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_if', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_set_x', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_vm_macro_expand', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define', 64), 1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R0]+8]+8]', 64), -1), (('v', '^cell_closure', 64), 1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define_macro', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 7, [(('v', '[[[[@R1]+16]+8]]', 64), -1)])), False)],
                   'regs': {'R0': ('T', 64, 0, [(('v', 'cons((cons(([[[@R1]+16]+8]), ([[[@R1]+16]+8]))), ([@R0]))', 64), 1)]),
                            'R1': ('T', 64, 0, [(('v', '[[[[@R1]+16]+16]+8]', 64), 1)]),
                            'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                            'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                   'stores': [],
                   'to': 'cell_vm_eval'},
                  {'ev': [('push',
                           'frame',
                           [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                            ('T', 64, 0, [(('v', 'cons((^cell_symbol_lambda), (cons(([[[[@R1]+16]+8]+16]), ([[[@R1]+16]+16]))))', 64), 1)]),
                            ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                            ('T', 64, 0, [(('v', '^cell_vm_eval_define', 64), 1)])])],
                   'guards': [(('b', 'zero', ('T', 32, 7, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_car', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_cdr', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_quote', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_lambda', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_if', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_set_x', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_vm_macro_expand', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define', 64), 1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R0]+8]+8]', 64), -1), (('v', '^cell_closure', 64), 1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define_macro', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 7, [(('v', '[[[[@R1]+16]+8]]', 64), -1)])), True)],
                   'regs': {'R0': ('T', 64, 0, [(('v', 'pairlis(([[[@R1]+16]+8]), ([[[@R1]+16]+8]), ([@R0]))', 64), 1)]),
                            'R1': ('T', 64, 0, [(('v', 'cons((^cell_symbol_lambda), (cons(([[[[@R1]+16]+8]+16]), ([[[@R1]+16]+16]))))', 64), 1)]),
                            'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                            'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                   'stores': [],
                   'to': 'cell_vm_eval'},
                  {'ev': [('effect', 'macro_set_x', [('T', 64, 0, [(('v', '[[[[@R1]+16]+8]+8]', 64), 1)]), ('T', 64, 0, [(('v', '^cell_f', 64), 1)])]),
                          ('effect', 'expand_variable', [('T', 64, 0, [(('v', '[[[@R1]+16]+16]', 64), 1)]), ('T', 64, 0, [(('v', '[[[[@R1]+16]+8]+16]', 64), 1)])]),
                          ('push',
                           'frame',
                           [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                            ('T', 64, 0, [(('v', 'cons((^cell_symbol_lambda), (cons(([[[[@R1]+16]+8]+16]), ([[[@R1]+16]+16]))))', 64), 1)]),
                            ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                            ('T', 64, 0, [(('v', '^cell_vm_eval_define', 64), 1)])])],
                   'guards': [(('b', 'zero', ('T', 32, 7, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_car', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_cdr', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_quote', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_lambda', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_if', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_set_x', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_vm_macro_expand', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define_macro', 64), 1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R0]+8]+8]', 64), -1), (('v', '^cell_closure', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 7, [(('v', '[[[[@R1]+16]+8]]', 64), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '^cell_f', 64), -1), (('v', 'assq(([[[[@R1]+16]+8]+8]), ([@g_macros]))', 64), 1)])), True)],
                   'regs': {'R0': ('T', 64, 0, [(('v', 'pairlis(([[[@R1]+16]+8]), ([[[@R1]+16]+8]), ([@R0]))', 64), 1)]),
                            'R1': ('T', 64, 0, [(('v', 'cons((^cell_symbol_lambda), (cons(([[[[@R1]+16]+8]+16]), ([[[@R1]+16]+16]))))', 64), 1)]),
                            'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                            'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                   'stores': [],
                   'to': 'cell_vm_eval'},
                  {'ev': [('effect', 'expand_variable', [('T', 64, 0, [(('v', '[[[@R1]+16]+16]', 64), 1)]), ('T', 64, 0, [(('v', '[[[[@R1]+16]+8]+16]', 64), 1)])]),
                          ('push',
                           'frame',
                           [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                            ('T', 64, 0, [(('v', 'cons((^cell_symbol_lambda), (cons(([[[[@R1]+16]+8]+16]), ([[[@R1]+16]+16]))))', 64), 1)]),
                            ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                            ('T', 64, 0, [(('v', '^cell_vm_eval_define', 64), 1)])])],
                   'guards': [(('b', 'zero', ('T', 32, 7, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_car', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_cdr', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_quote', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_lambda', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_if', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_set_x', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_vm_macro_expand', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define_macro', 64), 1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R0]+8]+8]', 64), -1), (('v', '^cell_closure', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 7, [(('v', '[[[[@R1]+16]+8]]', 64), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '^cell_f', 64), -1), (('v', 'assq(([[[[@R1]+16]+8]+8]), ([@g_macros]))', 64), 1)])), False)],
                   'regs': {'R0': ('T', 64, 0, [(('v', 'pairlis(([[[@R1]+16]+8]), ([[[@R1]+16]+8]), ([@R0]))', 64), 1)]),
                            'R1': ('T', 64, 0, [(('v', 'cons((^cell_symbol_lambda), (cons(([[[[@R1]+16]+8]+16]), ([[[@R1]+16]+16]))))', 64), 1)]),
                            'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                            'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                   'stores': [],
                   'to': 'cell_vm_eval'},
                  {'ev': [('effect', 'macro_set_x', [('T', 64, 0, [(('v', '[[[@R1]+16]+8]', 64), 1)]), ('T', 64, 0, [(('v', '^cell_f', 64), 1)])]),
                          ('push',
                           'frame',
                           [('T', 64, 0, [(('v', '[@R0]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '^cell_vm_eval_define', 64), 1)])])],
                   'guards': [(('b', 'zero', ('T', 32, 7, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_car', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_cdr', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_quote', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_lambda', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_if', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_set_x', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_vm_macro_expand', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define_macro', 64), 1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R0]+8]+8]', 64), -1), (('v', '^cell_closure', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 7, [(('v', '[[[[@R1]+16]+8]]', 64), -1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '^cell_f', 64), -1), (('v', 'assq(([[[@R1]+16]+8]), ([@g_macros]))', 64), 1)])), True)],
                   'regs': {'R0': ('T', 64, 0, [(('v', 'cons((cons(([[[@R1]+16]+8]), ([[[@R1]+16]+8]))), ([@R0]))', 64), 1)]),
                            'R1': ('T', 64, 0, [(('v', '[[[[@R1]+16]+16]+8]', 64), 1)]),
                            'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                            'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                   'stores': [],
                   'to': 'cell_vm_eval'},
                  {'ev': [('push',
                           'frame',
                           [('T', 64, 0, [(('v', '[@R0]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '^cell_vm_eval_define', 64), 1)])])],
                   'guards': [(('b', 'zero', ('T', 32, 7, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_car', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_cdr', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_quote', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_lambda', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_if', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_set_x', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_vm_macro_expand', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define_macro', 64), 1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R0]+8]+8]', 64), -1), (('v', '^cell_closure', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 7, [(('v', '[[[[@R1]+16]+8]]', 64), -1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '^cell_f', 64), -1), (('v', 'assq(([[[@R1]+16]+8]), ([@g_macros]))', 64), 1)])), False)],
                   'regs': {'R0': ('T', 64, 0, [(('v', 'cons((cons(([[[@R1]+16]+8]), ([[[@R1]+16]+8]))), ([@R0]))', 64), 1)]),
                            'R1': ('T', 64, 0, [(('v', '[[[[@R1]+16]+16]+8]', 64), 1)]),
                            'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                            'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                   'stores': [],
                   'to': 'cell_vm_eval'},
                  {'ev': [('push',
                           'frame',
                           [('T', 64, 0, [(('v', '[@R0]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '^cell_vm_eval_define', 64), 1)])])],
                   'guards': [(('b', 'zero', ('T', 32, 7, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_car', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_cdr', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_quote', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_lambda', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_if', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_set_x', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_vm_macro_expand', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define_macro', 64), 1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R0]+8]+8]', 64), -1), (('v', '^cell_closure', 64), 1)])), True),
                              (('b', 'zero', ('T', 64, 7, [(('v', '[[[[@R1]+16]+8]]', 64), -1)])), False)],
                   'regs': {'R0': ('T', 64, 0, [(('v', 'cons((cons(([[[@R1]+16]+8]), ([[[@R1]+16]+8]))), ([@R0]))', 64), 1)]),
                            'R1': ('T', 64, 0, [(('v', '[[[[@R1]+16]+16]+8]', 64), 1)]),
                            'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                            'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                   'stores': [],
                   'to': 'cell_vm_eval'},
                  {'ev': [('effect', 'expand_variable', [('T', 64, 0, [(('v', '[[[@R1]+16]+16]', 64), 1)]), ('T', 64, 0, [(('v', '[[[[@R1]+16]+8]+16]', 64), 1)])]),
                          ('push',
                           'frame',
                           [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                            ('T', 64, 0, [(('v', 'cons((^cell_symbol_lambda), (cons(([[[[@R1]+16]+8]+16]), ([[[@R1]+16]+16]))))', 64), 1)]),
                            ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                            ('T', 64, 0, [(('v', '^cell_vm_eval_define', 64), 1)])])],
                   'guards': [(('b', 'zero', ('T', 32, 7, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_car', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_cdr', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_quote', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_lambda', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_if', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_set_x', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_vm_macro_expand', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define_macro', 64), 1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R0]+8]+8]', 64), -1), (('v', '^cell_closure', 64), 1)])), True),
                              (('b', 'zero', ('T', 64, 7, [(('v', '[[[[@R1]+16]+8]]', 64), -1)])), True)],
                   'regs': {'R0': ('T', 64, 0, [(('v', 'pairlis(([[[@R1]+16]+8]), ([[[@R1]+16]+8]), ([@R0]))', 64), 1)]),
                            'R1': ('T', 64, 0, [(('v', 'cons((^cell_symbol_lambda), (cons(([[[[@R1]+16]+8]+16]), ([[[@R1]+16]+16]))))', 64), 1)]),
                            'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                            'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                   'stores': [],
                   'to': 'cell_vm_eval'},
                  {'ev': [('push',
                           'frame',
                           [('T', 64, 0, [(('v', '[@R0]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '^cell_vm_eval_check_func', 64), 1)])]),
                          ('effect', 'gc_check', [])],
                   'guards': [(('b', 'zero', ('T', 32, 7, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_car', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_cdr', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_quote', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_lambda', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_if', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_set_x', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_vm_macro_expand', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define_macro', 64), 1)])), False)],
                   'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]), 'R1': ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]), 'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), 'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                   'stores': [],
                   'to': 'cell_vm_eval'},
                  {'ev': [('push',
                           'frame',
                           [('T', 64, 0, [(('v', '[@R0]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '^cell_vm_eval_check_func', 64), 1)])]),
                          ('effect', 'gc_check', [])],
                   'guards': [(('b', 'zero', ('T', 32, 7, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_car', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_pmatch_cdr', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_quote', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_lambda', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_if', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_set_x', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_vm_macro_expand', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), False)],
                   'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]), 'R1': ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]), 'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), 'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                   'stores': [],
                   'to': 'cell_vm_eval'},
                  {'ev': [('pop', 'outer', [])],
                   'guards': [(('b', 'zero', ('T', 32, 7, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), False),
                              (('b', 'zero', ('T', 32, 13, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_symbol_boot_module', 64), 1)])), True)],
                   'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                            'R1': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                            'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                            'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                   'stores': [],
                   'to': 'dispatch'},
                  {'ev': [('pop', 'outer', [])],
                   'guards': [(('b', 'zero', ('T', 32, 7, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), False),
                              (('b', 'zero', ('T', 32, 13, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_symbol_boot_module', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_symbol_current_module', 64), 1)])), True)],
                   'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                            'R1': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                            'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                            'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                   'stores': [],
                   'to': 'dispatch'},
                  {'ev': [('pop', 'outer', [])],
                   'guards': [(('b', 'zero', ('T', 32, 7, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), False),
                              (('b', 'zero', ('T', 32, 13, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_symbol_boot_module', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_symbol_current_module', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), True)],
                   'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                            'R1': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                            'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                            'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                   'stores': [],
                   'to': 'dispatch'},
                  {'ev': [('pop', 'outer', [])],
                   'guards': [(('b', 'zero', ('T', 32, 7, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), False),
                              (('b', 'zero', ('T', 32, 13, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_symbol_boot_module', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_symbol_current_module', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_symbol_call_with_current_continuation', 64), 1)])), True)],
                   'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                            'R1': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                            'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                            'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                   'stores': [],
                   'to': 'dispatch'},
                  {'ev': [('pop', 'outer', [])],
                   'guards': [(('b', 'zero', ('T', 32, 7, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), False),
                              (('b', 'zero', ('T', 32, 13, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), True),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_symbol_boot_module', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_symbol_current_module', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                              (('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_symbol_call_with_current_continuation', 64), 1)])), False)],
                   'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                            'R1': ('T', 64, 0, [(('v', 'assert_defined(([@R1]), (module_ref(([@R0]), ([@R1]))))', 64), 1)]),
                            'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                            'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                   'stores': [],
                   'to': 'dispatch'},
                  {'ev': [('pop', 'outer', [])],
                   'guards': [(('b', 'zero', ('T', 32, 7, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), False),
                              (('b', 'zero', ('T', 32, 13, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), False),
                              (('b', 'zero', ('T', 32, 15, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), True)],
                   'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                            'R1': ('T', 64, 0, [(('v', '[[[@R1]+8]+16]', 64), 1)]),
                            'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                            'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                   'stores': [],
                   'to': 'dispatch'},
                  {'ev': [('pop', 'outer', [])],
                   'guards': [(('b', 'zero', ('T', 32, 7, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), False),
                              (('b', 'zero', ('T', 32, 13, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), False),
                              (('b', 'zero', ('T', 32, 15, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), False),
                              (('b', 'zero', ('T', 32, 17, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), False)],
                   'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                            'R1': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                            'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                            'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                   'stores': [],
                   'to': 'dispatch'},
                  {'ev': [('fail', 'error', [])],
                   'guards': [(('b', 'zero', ('T', 32, 7, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), False),
                              (('b', 'zero', ('T', 32, 13, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), False),
                              (('b', 'zero', ('T', 32, 15, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), False),
                              (('b', 'zero', ('T', 32, 17, [(('tr', 32, ('v', '[[@R1]]', 64)), -1)])), True)],
                   'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]), 'R1': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), 'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]), 'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                   'stores': [],
                   'to': 'fail'}],
 'cell_vm_eval2': [{'ev': [],
                    'guards': [],
                    'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                             'R1': ('T', 64, 0, [(('v', 'cons(([[@R2]+8]), ([@R1]))', 64), 1)]),
                             'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                             'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                    'stores': [],
                    'to': 'cell_vm_apply'}],
 'cell_vm_eval_check_func': [{'ev': [('push',
                                      'frame',
                                      [('T', 64, 0, [(('v', '[@R0]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '[@R2]', 64), 1)]), ('T', 64, 0, [(('v', '^cell_vm_eval2', 64), 1)])])],
                              'guards': [],
                              'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                       'R1': ('T', 64, 0, [(('v', '[[@R2]+16]', 64), 1)]),
                                       'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                       'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                              'stores': [],
                              'to': 'cell_vm_evlis'}],
 'cell_vm_eval_define': [{'ev': [('effect', 'set_cdr_x', [('T', 64, 0, [(('v', 'macro_get_handle(([[[[@R2]+16]+8]+8]))', 64), 1)]), ('T', 64, 0, [(('v', 'make_macro(([[[[@R2]+16]+8]+8]), ([@R1]))', 64), 1)])]),
                                 ('pop', 'outer', [])],
                          'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[[[@R0]+8]+8]', 64), -1), (('v', '^cell_closure', 64), 1)])), False),
                                     (('b', 'zero', ('T', 64, 0, [(('v', '[[@R2]+8]', 64), -1), (('v', '^cell_symbol_define_macro', 64), 1)])), True),
                                     (('b', 'zero', ('T', 64, 7, [(('v', '[[[[@R2]+16]+8]]', 64), -1)])), True)],
                          'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                                   'R1': ('T', 64, 0, [(('v', '^cell_unspecified', 64), 1)]),
                                   'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                                   'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                          'stores': [],
                          'to': 'dispatch'},
                         {'ev': [('effect', 'set_cdr_x', [('T', 64, 0, [(('v', 'macro_get_handle(([[[@R2]+16]+8]))', 64), 1)]), ('T', 64, 0, [(('v', 'make_macro(([[[@R2]+16]+8]), ([@R1]))', 64), 1)])]),
                                 ('pop', 'outer', [])],
                          'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[[[@R0]+8]+8]', 64), -1), (('v', '^cell_closure', 64), 1)])), False),
                                     (('b', 'zero', ('T', 64, 0, [(('v', '[[@R2]+8]', 64), -1), (('v', '^cell_symbol_define_macro', 64), 1)])), True),
                                     (('b', 'zero', ('T', 64, 7, [(('v', '[[[[@R2]+16]+8]]', 64), -1)])), False)],
                          'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                                   'R1': ('T', 64, 0, [(('v', '^cell_unspecified', 64), 1)]),
                                   'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                                   'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                          'stores': [],
                          'to': 'dispatch'},
                         {'ev': [('effect', 'set_cdr_x', [('T', 64, 0, [(('v', 'module_variable(([@R0]), ([[[[@R2]+16]+8]+8]))', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)])]), ('pop', 'outer', [])],
                          'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[[[@R0]+8]+8]', 64), -1), (('v', '^cell_closure', 64), 1)])), False),
                                     (('b', 'zero', ('T', 64, 0, [(('v', '[[@R2]+8]', 64), -1), (('v', '^cell_symbol_define_macro', 64), 1)])), False),
                                     (('b', 'zero', ('T', 64, 7, [(('v', '[[[[@R2]+16]+8]]', 64), -1)])), True)],
                          'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                                   'R1': ('T', 64, 0, [(('v', '^cell_unspecified', 64), 1)]),
                                   'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                                   'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                          'stores': [],
                          'to': 'dispatch'},
                         {'ev': [('effect', 'set_cdr_x', [('T', 64, 0, [(('v', 'module_variable(([@R0]), ([[[@R2]+16]+8]))', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)])]), ('pop', 'outer', [])],
                          'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[[[@R0]+8]+8]', 64), -1), (('v', '^cell_closure', 64), 1)])), False),
                                     (('b', 'zero', ('T', 64, 0, [(('v', '[[@R2]+8]', 64), -1), (('v', '^cell_symbol_define_macro', 64), 1)])), False),
                                     (('b', 'zero', ('T', 64, 7, [(('v', '[[[[@R2]+16]+8]]', 64), -1)])), False)],
                          'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                                   'R1': ('T', 64, 0, [(('v', '^cell_unspecified', 64), 1)]),
                                   'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                                   'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                          'stores': [],
                          'to': 'dispatch'},
                         {'ev': [('effect', 'set_cdr_x', [('T', 64, 0, [(('v', 'macro_get_handle(([[[[@R2]+16]+8]+8]))', 64), 1)]), ('T', 64, 0, [(('v', 'make_macro(([[[[@R2]+16]+8]+8]), ([@R1]))', 64), 1)])]),
                                 ('pop', 'outer', [])],
                          'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[[[@R0]+8]+8]', 64), -1), (('v', '^cell_closure', 64), 1)])), True),
                                     (('b', 'zero', ('T', 64, 0, [(('v', '[[@R2]+8]', 64), -1), (('v', '^cell_symbol_define_macro', 64), 1)])), True),
                                     (('b', 'zero', ('T', 64, 7, [(('v', '[[[[@R2]+16]+8]]', 64), -1)])), True)],
                          'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                                   'R1': ('T', 64, 0, [(('v', '^cell_unspecified', 64), 1)]),
                                   'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                                   'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                          'stores': [],
                          'to': 'dispatch'},
                         {'ev': [('effect', 'set_cdr_x', [('T', 64, 0, [(('v', 'macro_get_handle(([[[@R2]+16]+8]))', 64), 1)]), ('T', 64, 0, [(('v', 'make_macro(([[[@R2]+16]+8]), ([@R1]))', 64), 1)])]),
                                 ('pop', 'outer', [])],
                          'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[[[@R0]+8]+8]', 64), -1), (('v', '^cell_closure', 64), 1)])), True),
                                     (('b', 'zero', ('T', 64, 0, [(('v', '[[@R2]+8]', 64), -1), (('v', '^cell_symbol_define_macro', 64), 1)])), True),
                                     (('b', 'zero', ('T', 64, 7, [(('v', '[[[[@R2]+16]+8]]', 64), -1)])), False)],
                          'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                                   'R1': ('T', 64, 0, [(('v', '^cell_unspecified', 64), 1)]),
                                   'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                                   'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                          'stores': [],
                          'to': 'dispatch'},
                         {'ev': [('effect', 'set_cdr_x', [('T', 64, 0, [(('v', 'cons((cons(([[[[@R2]+16]+8]+8]), ([@R1]))), (^cell_nil))', 64), 1)]), ('T', 64, 0, [(('v', 'cdr(([@R0]))', 64), 1)])]),
                                 ('effect', 'set_cdr_x', [('T', 64, 0, [(('v', '[@R0]', 64), 1)]), ('T', 64, 0, [(('v', 'cons((cons(([[[[@R2]+16]+8]+8]), ([@R1]))), (^cell_nil))', 64), 1)])]),
                                 ('effect',
                                  'set_cdr_x',
                                  [('T', 64, 0, [(('v', 'module_variable(([@R0]), (^cell_closure))', 64), 1)]), ('T', 64, 0, [(('v', 'cons((cons(([[[[@R2]+16]+8]+8]), ([@R1]))), (^cell_nil))', 64), 1)])]),
                                 ('pop', 'outer', [])],
                          'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[[[@R0]+8]+8]', 64), -1), (('v', '^cell_closure', 64), 1)])), True),
                                     (('b', 'zero', ('T', 64, 0, [(('v', '[[@R2]+8]', 64), -1), (('v', '^cell_symbol_define_macro', 64), 1)])), False),
                                     (('b', 'zero', ('T', 64, 7, [(('v', '[[[[@R2]+16]+8]]', 64), -1)])), True)],
                          'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                                   'R1': ('T', 64, 0, [(('v', '^cell_unspecified', 64), 1)]),
                                   'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                                   'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                          'stores': [],
                          'to': 'dispatch'},
                         {'ev': [('effect', 'set_cdr_x', [('T', 64, 0, [(('v', 'cons((cons(([[[@R2]+16]+8]), ([@R1]))), (^cell_nil))', 64), 1)]), ('T', 64, 0, [(('v', 'cdr(([@R0]))', 64), 1)])]),
                                 ('effect', 'set_cdr_x', [('T', 64, 0, [(('v', '[@R0]', 64), 1)]), ('T', 64, 0, [(('v', 'cons((cons(([[[@R2]+16]+8]), ([@R1]))), (^cell_nil))', 64), 1)])]),
                                 ('effect',
                                  'set_cdr_x',
                                  [('T', 64, 0, [(('v', 'module_variable(([@R0]), (^cell_closure))', 64), 1)]), ('T', 64, 0, [(('v', 'cons((cons(([[[@R2]+16]+8]), ([@R1]))), (^cell_nil))', 64), 1)])]),
                                 ('pop', 'outer', [])],
                          'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[[[@R0]+8]+8]', 64), -1), (('v', '^cell_closure', 64), 1)])), True),
                                     (('b', 'zero', ('T', 64, 0, [(('v', '[[@R2]+8]', 64), -1), (('v', '^cell_symbol_define_macro', 64), 1)])), False),
                                     (('b', 'zero', ('T', 64, 7, [(('v', '[[[[@R2]+16]+8]]', 64), -1)])), False)],
                          'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                                   'R1': ('T', 64, 0, [(('v', '^cell_unspecified', 64), 1)]),
                                   'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                                   'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                          'stores': [],
                          'to': 'dispatch'}],
 'cell_vm_eval_macro_expand_eval': [{'ev': [('push',
                                             'frame',
                                             [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                              ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                              ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                              ('T', 64, 0, [(('v', '^cell_vm_eval_macro_expand_expand', 64), 1)])])],
                                     'guards': [],
                                     'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                              'R1': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                              'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                              'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                                     'stores': [],
                                     'to': 'cell_vm_macro_expand'}],
 'cell_vm_eval_macro_expand_expand': [{'ev': [('pop', 'outer', [])],
                                       'guards': [],
                                       'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                                                'R1': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                                'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                                                'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                                       'stores': [],
                                       'to': 'dispatch'}],
 'cell_vm_eval_pmatch_car': [{'ev': [('pop', 'outer', [])],
                              'guards': [],
                              'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                                       'R1': ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]),
                                       'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                                       'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                              'stores': [],
                              'to': 'dispatch'}],
 'cell_vm_eval_pmatch_cdr': [{'ev': [('pop', 'outer', [])],
                              'guards': [],
                              'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                                       'R1': ('T', 64, 0, [(('v', '[[@R1]+16]', 64), 1)]),
                                       'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                                       'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                              'stores': [],
                              'to': 'dispatch'}],
 'cell_vm_eval_set_x': [{'ev': [('effect', 'set_env_x', [('T', 64, 0, [(('v', '[[[@R2]+16]+8]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '[@R0]', 64), 1)])]), ('pop', 'outer', [])],
                         'guards': [],
                         'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                                  'R1': ('T', 64, 0, [(('v', 'set_env_x(([[[@R2]+16]+8]), ([@R1]), ([@R0]))', 64), 1)]),
                                  'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                                  'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                         'stores': [],
                         'to': 'dispatch'}],
 'cell_vm_evlis': [{'ev': [('pop', 'outer', [])],
                    'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_nil', 64), 1)])), True)],
                    'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                             'R1': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                             'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                             'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                    'stores': [],
                    'to': 'dispatch'},
                   {'ev': [],
                    'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_nil', 64), 1)])), False), (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), False)],
                    'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]), 'R1': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), 'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]), 'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                    'stores': [],
                    'to': 'cell_vm_eval'},
                   {'ev': [('push',
                            'frame',
                            [('T', 64, 0, [(('v', '[@R0]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '^cell_vm_evlis2', 64), 1)])])],
                    'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_nil', 64), 1)])), False), (('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True)],
                    'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                             'R1': ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]),
                             'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                             'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                    'stores': [],
                    'to': 'cell_vm_eval'}],
 'cell_vm_evlis2': [{'ev': [('push',
                             'frame',
                             [('T', 64, 0, [(('v', '[@R0]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '^cell_vm_evlis3', 64), 1)])])],
                     'guards': [],
                     'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                              'R1': ('T', 64, 0, [(('v', '[[@R2]+16]', 64), 1)]),
                              'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                              'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                     'stores': [],
                     'to': 'cell_vm_evlis'}],
 'cell_vm_evlis3': [{'ev': [('pop', 'outer', [])],
                     'guards': [],
                     'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                              'R1': ('T', 64, 0, [(('v', 'cons(([@R2]), ([@R1]))', 64), 1)]),
                              'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                              'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                     'stores': [],
                     'to': 'dispatch'}],
 'cell_vm_if': [{'ev': [('push', 'frame', [('T', 64, 0, [(('v', '[@R0]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), ('T', 64, 0, [(('v', '^cell_vm_if_expr', 64), 1)])])],
                 'guards': [],
                 'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]), 'R1': ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]), 'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]), 'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                 'stores': [],
                 'to': 'cell_vm_eval'}],
 'cell_vm_if_expr': [{'ev': [],
                      'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_f', 64), 1)])), False)],
                      'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                               'R1': ('T', 64, 0, [(('v', '[[[@R2]+16]+8]', 64), 1)]),
                               'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                               'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                      'stores': [],
                      'to': 'cell_vm_eval'},
                     {'ev': [],
                      'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_f', 64), 1)])), True),
                                 (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R2]+16]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), False)],
                      'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                               'R1': ('T', 64, 0, [(('v', '[[[[@R2]+16]+16]+8]', 64), 1)]),
                               'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                               'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                      'stores': [],
                      'to': 'cell_vm_eval'},
                     {'ev': [('pop', 'outer', [])],
                      'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[@R1]', 64), -1), (('v', '^cell_f', 64), 1)])), True),
                                 (('b', 'zero', ('T', 64, 0, [(('v', '[[[@R2]+16]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), True)],
                      'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                               'R1': ('T', 64, 0, [(('v', '^cell_unspecified', 64), 1)]),
                               'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                               'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                      'stores': [],
                      'to': 'dispatch'}],
 'cell_vm_macro_expand': [{'ev': [('pop', 'outer', [])],
                           'guards': [(('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), False)],
                           'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                                    'R1': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                                    'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                           'stores': [],
                           'to': 'dispatch'},
                          {'ev': [('pop', 'outer', [])],
                           'guards': [(('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True), (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_quote', 64), 1)])), True)],
                           'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                                    'R1': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                                    'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                           'stores': [],
                           'to': 'dispatch'},
                          {'ev': [('push',
                                   'frame',
                                   [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '^cell_vm_macro_expand_lambda', 64), 1)])])],
                           'guards': [(('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_quote', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_lambda', 64), 1)])), True)],
                           'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    'R1': ('T', 64, 0, [(('v', '[[[@R1]+16]+16]', 64), 1)]),
                                    'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                           'stores': [],
                           'to': 'cell_vm_macro_expand'},
                          {'ev': [('push',
                                   'frame',
                                   [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    ('T', 64, 0, [(('v', 'cons((get_macro(([[@R1]+8]))), ([[@R1]+16]))', 64), 1)]),
                                    ('T', 64, 0, [(('v', '^cell_nil', 64), 1)]),
                                    ('T', 64, 0, [(('v', '^cell_vm_macro_expand', 64), 1)])])],
                           'guards': [(('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_quote', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_lambda', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '^cell_f', 64), -1), (('v', 'get_macro(([[@R1]+8]))', 64), 1)])), False)],
                           'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    'R1': ('T', 64, 0, [(('v', 'cons((get_macro(([[@R1]+8]))), ([[@R1]+16]))', 64), 1)]),
                                    'R2': ('T', 64, 0, [(('v', '^cell_nil', 64), 1)]),
                                    'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                           'stores': [],
                           'to': 'cell_vm_apply'},
                          {'ev': [('push',
                                   'frame',
                                   [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '^cell_vm_macro_expand_define', 64), 1)])])],
                           'guards': [(('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_quote', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_lambda', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '^cell_f', 64), -1), (('v', 'get_macro(([[@R1]+8]))', 64), 1)])), True),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define', 64), 1)])), True)],
                           'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    'R1': ('T', 64, 0, [(('v', '[[[@R1]+16]+16]', 64), 1)]),
                                    'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                           'stores': [],
                           'to': 'cell_vm_macro_expand'},
                          {'ev': [('push',
                                   'frame',
                                   [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '^cell_vm_macro_expand_define', 64), 1)])])],
                           'guards': [(('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_quote', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_lambda', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '^cell_f', 64), -1), (('v', 'get_macro(([[@R1]+8]))', 64), 1)])), True),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define_macro', 64), 1)])), True)],
                           'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    'R1': ('T', 64, 0, [(('v', '[[[@R1]+16]+16]', 64), 1)]),
                                    'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                           'stores': [],
                           'to': 'cell_vm_macro_expand'},
                          {'ev': [('push',
                                   'frame',
                                   [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '^cell_vm_macro_expand_set_x', 64), 1)])])],
                           'guards': [(('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_quote', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_lambda', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '^cell_f', 64), -1), (('v', 'get_macro(([[@R1]+8]))', 64), 1)])), True),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define_macro', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_set_x', 64), 1)])), True)],
                           'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    'R1': ('T', 64, 0, [(('v', '[[[@R1]+16]+16]', 64), 1)]),
                                    'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                           'stores': [],
                           'to': 'cell_vm_macro_expand'},
                          {'ev': [],
                           'guards': [(('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_quote', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_lambda', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '^cell_f', 64), -1), (('v', 'get_macro(([[@R1]+8]))', 64), 1)])), True),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define_macro', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_set_x', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 13, [(('v', '[[[@R1]+8]]', 64), -1)])), True),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '^cell_f', 64), -1), (('v', 'macro_get_handle((^cell_symbol_portable_macro_expand))', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '^cell_undefined', 64), -1), (('v', 'module_ref(([@R0]), (^cell_symbol_sc_expander_alist))', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '^cell_f', 64), -1), (('v', 'assq(([[@R1]+8]), (module_ref(([@R0]), (^cell_symbol_sc_expander_alist))))', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '^cell_undefined', 64), -1), (('v', 'module_ref(([@R0]), (^cell_symbol_macro_expand))', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '^cell_f', 64), -1), (('v', 'module_ref(([@R0]), (^cell_symbol_macro_expand))', 64), 1)])), False)],
                           'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    'R1': ('T', 64, 0, [(('v', 'cons((module_ref(([@R0]), (^cell_symbol_macro_expand))), (cons(([@R1]), (^cell_nil))))', 64), 1)]),
                                    'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                           'stores': [],
                           'to': 'cell_vm_apply'},
                          {'ev': [('push',
                                   'frame',
                                   [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '^cell_vm_macro_expand_car', 64), 1)])])],
                           'guards': [(('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_quote', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_lambda', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '^cell_f', 64), -1), (('v', 'get_macro(([[@R1]+8]))', 64), 1)])), True),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define_macro', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_set_x', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 13, [(('v', '[[[@R1]+8]]', 64), -1)])), True),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '^cell_f', 64), -1), (('v', 'macro_get_handle((^cell_symbol_portable_macro_expand))', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '^cell_undefined', 64), -1), (('v', 'module_ref(([@R0]), (^cell_symbol_sc_expander_alist))', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '^cell_f', 64), -1), (('v', 'assq(([[@R1]+8]), (module_ref(([@R0]), (^cell_symbol_sc_expander_alist))))', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '^cell_undefined', 64), -1), (('v', 'module_ref(([@R0]), (^cell_symbol_macro_expand))', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '^cell_f', 64), -1), (('v', 'module_ref(([@R0]), (^cell_symbol_macro_expand))', 64), 1)])), True)],
                           'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    'R1': ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]),
                                    'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                           'stores': [],
                           'to': 'cell_vm_macro_expand'},
                          {'ev': [('push',
                                   'frame',
                                   [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '^cell_vm_macro_expand_car', 64), 1)])])],
                           'guards': [(('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_quote', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_lambda', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '^cell_f', 64), -1), (('v', 'get_macro(([[@R1]+8]))', 64), 1)])), True),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define_macro', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_set_x', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 13, [(('v', '[[[@R1]+8]]', 64), -1)])), True),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '^cell_f', 64), -1), (('v', 'macro_get_handle((^cell_symbol_portable_macro_expand))', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '^cell_undefined', 64), -1), (('v', 'module_ref(([@R0]), (^cell_symbol_sc_expander_alist))', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '^cell_f', 64), -1), (('v', 'assq(([[@R1]+8]), (module_ref(([@R0]), (^cell_symbol_sc_expander_alist))))', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '^cell_undefined', 64), -1), (('v', 'module_ref(([@R0]), (^cell_symbol_macro_expand))', 64), 1)])), True)],
                           'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    'R1': ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]),
                                    'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                           'stores': [],
                           'to': 'cell_vm_macro_expand'},
                          {'ev': [('push',
                                   'frame',
                                   [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '^cell_vm_macro_expand_car', 64), 1)])])],
                           'guards': [(('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_quote', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_lambda', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '^cell_f', 64), -1), (('v', 'get_macro(([[@R1]+8]))', 64), 1)])), True),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define_macro', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_set_x', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 13, [(('v', '[[[@R1]+8]]', 64), -1)])), True),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '^cell_f', 64), -1), (('v', 'macro_get_handle((^cell_symbol_portable_macro_expand))', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '^cell_undefined', 64), -1), (('v', 'module_ref(([@R0]), (^cell_symbol_sc_expander_alist))', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '^cell_f', 64), -1), (('v', 'assq(([[@R1]+8]), (module_ref(([@R0]), (^cell_symbol_sc_expander_alist))))', 64), 1)])), True)],
                           'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    'R1': ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]),
                                    'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                           'stores': [],
                           'to': 'cell_vm_macro_expand'},
                          {'ev': [('push',
                                   'frame',
                                   [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '^cell_vm_macro_expand_car', 64), 1)])])],
                           'guards': [(('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_quote', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_lambda', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '^cell_f', 64), -1), (('v', 'get_macro(([[@R1]+8]))', 64), 1)])), True),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define_macro', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_set_x', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 13, [(('v', '[[[@R1]+8]]', 64), -1)])), True),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '^cell_f', 64), -1), (('v', 'macro_get_handle((^cell_symbol_portable_macro_expand))', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '^cell_undefined', 64), -1), (('v', 'module_ref(([@R0]), (^cell_symbol_sc_expander_alist))', 64), 1)])), True)],
                           'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    'R1': ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]),
                                    'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                           'stores': [],
                           'to': 'cell_vm_macro_expand'},
                          {'ev': [('push',
                                   'frame',
                                   [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '^cell_vm_macro_expand_car', 64), 1)])])],
                           'guards': [(('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_quote', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_lambda', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '^cell_f', 64), -1), (('v', 'get_macro(([[@R1]+8]))', 64), 1)])), True),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define_macro', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_set_x', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 13, [(('v', '[[[@R1]+8]]', 64), -1)])), True),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '^cell_f', 64), -1), (('v', 'macro_get_handle((^cell_symbol_portable_macro_expand))', 64), 1)])), True)],
                           'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    'R1': ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]),
                                    'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                           'stores': [],
                           'to': 'cell_vm_macro_expand'},
                          {'ev': [('push',
                                   'frame',
                                   [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '^cell_vm_macro_expand_car', 64), 1)])])],
                           'guards': [(('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_quote', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_lambda', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '^cell_f', 64), -1), (('v', 'get_macro(([[@R1]+8]))', 64), 1)])), True),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define_macro', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_set_x', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 13, [(('v', '[[[@R1]+8]]', 64), -1)])), True),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_begin', 64), 1)])), True)],
                           'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    'R1': ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]),
                                    'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                           'stores': [],
                           'to': 'cell_vm_macro_expand'},
                          {'ev': [('push',
                                   'frame',
                                   [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    ('T', 64, 0, [(('v', '^cell_vm_macro_expand_car', 64), 1)])])],
                           'guards': [(('b', 'zero', ('T', 64, 7, [(('v', '[[@R1]]', 64), -1)])), True),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_quote', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_lambda', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '^cell_f', 64), -1), (('v', 'get_macro(([[@R1]+8]))', 64), 1)])), True),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_define_macro', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 0, [(('v', '[[@R1]+8]', 64), -1), (('v', '^cell_symbol_set_x', 64), 1)])), False),
                                      (('b', 'zero', ('T', 64, 13, [(('v', '[[[@R1]+8]]', 64), -1)])), False)],
                           'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                    'R1': ('T', 64, 0, [(('v', '[[@R1]+8]', 64), 1)]),
                                    'R2': ('T', 64, 0, [(('v', '[@R1]', 64), 1)]),
                                    'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                           'stores': [],
                           'to': 'cell_vm_macro_expand'}],
 'cell_vm_macro_expand_car': [{'ev': [('pop', 'outer', [])],
                               'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[[@R2]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), True)],
                               'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                                        'R1': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                        'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                                        'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                               'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', '[@R1]', 64), 1)]))],
                               'to': 'dispatch'},
                              {'ev': [('push',
                                       'frame',
                                       [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                        ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                        ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                        ('T', 64, 0, [(('v', '^cell_vm_macro_expand_cdr', 64), 1)])])],
                               'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[[@R2]+16]', 64), -1), (('v', '^cell_nil', 64), 1)])), False)],
                               'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                        'R1': ('T', 64, 0, [(('v', '[[@R2]+16]', 64), 1)]),
                                        'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                        'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                               'stores': [('[@R2]', ('T', 64, 8, []), 8, ('T', 64, 0, [(('v', '[@R1]', 64), 1)]))],
                               'to': 'cell_vm_macro_expand'}],
 'cell_vm_macro_expand_cdr': [{'ev': [('pop', 'outer', [])],
                               'guards': [],
                               'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                                        'R1': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                        'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                                        'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                               'stores': [('[@R2]', ('T', 64, 16, []), 8, ('T', 64, 0, [(('v', '[@R1]', 64), 1)]))],
                               'to': 'dispatch'}],
 'cell_vm_macro_expand_define': [{'ev': [('push',
                                          'frame',
                                          [('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                           ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                           ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                           ('T', 64, 0, [(('v', '^cell_vm_macro_expand_define_macro', 64), 1)])])],
                                  'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[[@R2]+8]', 64), -1), (('v', '^cell_symbol_define_macro', 64), 1)])), True)],
                                  'regs': {'R0': ('T', 64, 0, [(('v', '[@R0]', 64), 1)]),
                                           'R1': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                           'R2': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                           'R3': ('T', 64, 0, [(('v', '[@R3]', 64), 1)])},
                                  'stores': [('[[@R2]+16]', ('T', 64, 16, []), 8, ('T', 64, 0, [(('v', '[@R1]', 64), 1)]))],
                                  'to': 'cell_vm_eval'},
                                 {'ev': [('pop', 'outer', [])],
                                  'guards': [(('b', 'zero', ('T', 64, 0, [(('v', '[[@R2]+8]', 64), -1), (('v', '^cell_symbol_define_macro', 64), 1)])), False)],
                                  'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                                           'R1': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                           'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                                           'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                                  'stores': [('[[@R2]+16]', ('T', 64, 16, []), 8, ('T', 64, 0, [(('v', '[@R1]', 64), 1)]))],
                                  'to': 'dispatch'}],
 'cell_vm_macro_expand_define_macro': [{'ev': [('pop', 'outer', [])],
                                        'guards': [],
                                        'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                                                 'R1': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                                 'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                                                 'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                                        'stores': [],
                                        'to': 'dispatch'}],
 'cell_vm_macro_expand_lambda': [{'ev': [('pop', 'outer', [])],
                                  'guards': [],
                                  'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                                           'R1': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                           'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                                           'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                                  'stores': [('[[@R2]+16]', ('T', 64, 16, []), 8, ('T', 64, 0, [(('v', '[@R1]', 64), 1)]))],
                                  'to': 'dispatch'}],
 'cell_vm_macro_expand_set_x': [{'ev': [('pop', 'outer', [])],
                                 'guards': [],
                                 'regs': {'R0': ('T', 64, 0, [(('v', 'frame.R0', 64), 1)]),
                                          'R1': ('T', 64, 0, [(('v', '[@R2]', 64), 1)]),
                                          'R2': ('T', 64, 0, [(('v', 'frame.R2', 64), 1)]),
                                          'R3': ('T', 64, 0, [(('v', 'frame.R3', 64), 1)])},
                                 'stores': [('[[@R2]+16]', ('T', 64, 16, []), 8, ('T', 64, 0, [(('v', '[@R1]', 64), 1)]))],
                                 'to': 'dispatch'}]}
