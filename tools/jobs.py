"""Which harness runs decide which property (quick and thorough)."""
def J(h, prop, ranks, cases, **k):
    return dict(harness=h, prop=prop, ranks=ranks, cases=cases, **k)

JOBS = {
    'N01': [J('h_network', 'N01', r, c) for r, c in ((1, 400), (2, 2000), (3, 2000), (4, 2000))],
    'N02': [J('h_network', 'N02', r, c) for r, c in ((1, 1000), (2, 8000), (3, 8000), (4, 8000))],
    'N03': [J('h_network', 'N03', r, c) for r, c in ((1, 400), (2, 1500), (3, 1500), (4, 1500))],
    'D01': [J('h_parallel', 'D01', 1, 50, maybe_trivial=True)] + [J('h_parallel', 'D01', r, c) for r, c in ((2, 6000), (3, 6000), (4, 5000), (6, 1500))],
    'D02': [J('h_parallel', 'D02', r, c) for r, c in ((1, 2000), (2, 9000), (3, 9000), (4, 9000))],
    'D03': [J('h_parallel', 'D03', r, c) for r, c in ((1, 2000), (2, 10000), (3, 10000), (4, 10000))],
    'D05': [J('h_parallel', 'D05', r, c) for r, c in ((1, 1000), (2, 5000), (3, 5000), (4, 5000), (7, 2500))],
    'D06': [J('h_parallel', 'D06', r, c) for r, c in ((1, 1000), (2, 8000), (3, 8000), (4, 8000), (5, 6000), (8, 6000))],
    'R01': [J('h_parallel', 'R01', r, c) for r, c in ((1, 8000), (3, 3000))],
    'C01': [J('h_core', 'C01', 1, 30000, shards=4)],
    'C02': [J('h_core', 'C02', r, c) for r, c in ((1, 60000), (2, 30000), (3, 15000))],
    'C03': [J('h_core', 'C03', r, c) for r, c in ((1, 40000), (2, 30000), (3, 30000))],
    'M01': [J('h_map', 'M01', r, c) for r, c in ((1, 3000), (2, 3000), (3, 3000), (4, 3000))],
    'M02': [J('h_map', 'M02', r, c) for r, c in ((1, 3000), (2, 3000), (3, 3000), (4, 3000))],
    'M03': [J('h_map', 'M03', r, c) for r, c in ((1, 3000), (2, 3000), (3, 3000), (4, 3000))],
    'P01': [J('h_parse', 'P01', r, c) for r, c in ((1, 7000), (2, 4000), (3, 3000))],
    'P02': [J('h_parse', 'P02', r, c) for r, c in ((1, 2500), (2, 1800), (3, 1500))],
    'Y01': [J('h_y', 'Y01', r, c) for r, c in ((1, 4000), (2, 2500), (3, 2000), (4, 1500))],
    'F01': [J('h_pf', 'F01', r, c) for r, c in ((1, 3000), (2, 1300), (3, 1000), (4, 700))],
    'F02': [J('h_pf', 'F02', r, c) for r, c in ((1, 2000), (2, 900), (3, 700), (4, 600))],
    'A01': [J('h_io', 'A01', r, c) for r, c in ((1, 6000), (2, 4000), (3, 3500), (4, 3500))],
    'A02': [J('h_io', 'A02', r, c) for r, c in ((1, 20000), (2, 10000), (3, 8000), (4, 8000))],
    'A03': [J('h_io', 'A03', r, c) for r, c in ((1, 10000), (2, 8000), (3, 6000), (4, 6000))],
    'D04': [J('h_io', 'D04', r, c) for r, c in ((1, 20000), (2, 15000), (3, 12000), (4, 12000))],
    'A04': [J('h_pf', 'A04', r, c) for r, c in ((1, 4000), (2, 2000), (3, 1500), (4, 1200))],
    'G01': [J('h_blocks', 'G01', 1, 900000, shards=4)],
    'P03': [J('h_parse', 'P03', r, c) for r, c in ((1, 2500), (2, 2000), (3, 1800))],
    'F03': [J('h_se', 'F03', r, c) for r, c in ((1, 1500), (2, 800), (3, 600), (4, 500))],
    'G02': [J('h_ds', 'G02', r, c) for r, c in ((1, 1500), (2, 800), (3, 600), (4, 500), (6, 300))],
    'S01': [J('h_text', 'S01', 1, 150000, shards=4)],
    'L01': [J('h_math', 'L01', r, c) for r, c in ((1, 20000), (2, 12000), (3, 12000), (4, 9000))],
    'L03': [J('h_solve', 'L03', r, c) for r, c in ((1, 3000), (2, 1500), (3, 1200), (4, 800))],
    'L04': [J('h_solve', 'L04', r, c) for r, c in ((1, 3000), (2, 1500), (3, 1200), (4, 800))],
    'L05': [J('h_solve', 'L05', r, c) for r, c in ((1, 600), (2, 300), (3, 200))],
    'L02': [J('h_math', 'L02', r, c) for r, c in ((1, 6000), (2, 4000), (3, 3000), (4, 3000))],
}
RULES = {
    'G02': 'the power flow has a well conditioned solution, at least two machines, at least one event',
    'F03': 'the reference Gauss-Newton iteration converges without detours, at least three buses, redundant measurements',
    'G01': 'the input changes while the block runs, or the curve, band or gate has more than two points or inputs',
    'P03': 'several elements share a bus or a bus pair, and the case has more than two loads, shunts and generators',
    'F01': 'at least three buses, and the reference solution is reached without detours from the start given by the case',
    'F02': 'the base case is solved by the reference without detours from the start given by the case',
    'A01': 'more than two columns, and more rows than processes',
    'A02': 'several operations, and branches run between processes (one process: any)',
    'A03': 'a table of more than one row, with branches between processes (one process: any)',
    'D04': 'at least one value is addressed from one process to another that holds the bus or branch (one process: any delivery)',
    'A04': 'at least three buses, and a load or a generator',
    'P02': 'at least one record names an existing machine, load or branch, and more than three fields are checked',
    'Y01': 'at least two branch elements, with parallel elements, transformers or shunts among them',
    'P01': 'several elements share a bus or a bus pair, and the case has more than two loads, shunts and generators',
    'L05': 'more than one equation and two steps, with equations on more than one process (one process: any)',
    'L04': 'a coupled nonlinear system, with equations on more than one process (one process: any)',
    'L03': 'a coupled system of more than one equation, with rows on more than one process (one process: any)',
    'L02': 'at least two operations on matrices with rows and columns on more than one process (one process: more than one row)',
    'L01': 'at least two operations on vectors with elements on more than one process (one process: more than one element)',
    'M01': 'branches run between processes (one process: more than one branch)',
    'M02': 'branches run between processes (one process: more than two buses)',
    'M03': 'branches run between processes (one process: more than one branch)',
    'S01': 'the line has more than one field, or a tag, quoted text, truth value or line source was read',
    'C01': 'more than two values were stored in the first collection',
    'C02': 'a component, or a collection of more than one value, made the round trip',
    'C03': 'existing entries were looked up, or a damaged document was opened',
    'D01': 'at least two items travel to another process',
    'D02': 'at least two vectors (or vector elements) were stored',
    'D03': 'at least one lookup finds an entry',
    'D05': 'more than one process asks for tasks, or one process asks for several',
    'D06': 'a proper sub-group, a nested split or several collective rounds took place',
    'R01': 'more than one value was drawn',
    'N01': 'the network has branches between buses of different owners (one process: more than one branch)',
    'N02': 'at least one update ran while ghost copies existed',
    'N03': 'at least one ghost removal, copy or clear was followed by full checks',
}
ASSUME = {}
FINDINGS = [
    dict(property='F03', slug='saved-generators', keys=['saved generators'],
         probe=dict(harness='h_se', prop='F03X', ranks=1, choices=[], timeout=60)),
    dict(property='L05', slug='event-direction', keys=['event direction'],
         probe=dict(harness='h_solve', prop='L05X', ranks=1, choices=[], timeout=60)),
    dict(property='L02', slug='add-distribution', keys=['operand-distribution'],
         probe=dict(harness='h_math', prop='L02X', ranks=2, choices=[], timeout=60)),
]
PREPARE = {}
