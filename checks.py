"""What each check builds and how much it generates.

inst:  template instantiations (NX, NU, NC) - one translation unit each; None = the harness is compiled once
cases: generated cases (quick, thorough)
san:   cases run under AddressSanitizer + UBSan in the thorough tier
fuzz:  seconds of coverage-guided (libFuzzer) generation in the thorough tier, per instantiation binary
"""
D = -1  # Eigen::Dynamic

DDP_INST = [(1, 1), (2, 1), (3, 2), (2, D), (5, D)]
FMPC_INST = [(1, 1, 1), (2, 1, 2), (2, D, D), (3, 2, D), (4, D, 2)]
CG_SRC = ['nmpc_cgmres/src/*.cpp']
CHECKS = {
    'C01': dict(src='c01', inst=DDP_INST, cases=(240000, 6000000)),
    'C02': dict(src='c02', inst=DDP_INST, cases=(240000, 6000000)),
    'C03': dict(src='c03', inst=DDP_INST, cases=(160000, 3000000)),
    'C04': dict(src='c04', inst=DDP_INST, cases=(160000, 3000000)),
    'C05': dict(src='c05', inst=DDP_INST, cases=(240000, 6000000)),
    'C06': dict(src='c06', inst=DDP_INST, cases=(160000, 3000000)),
    'C08': dict(src='c08', inst=DDP_INST, cases=(160000, 3000000)),
    'C09': dict(src='c09', inst=DDP_INST, cases=(120000, 3000000)),
    'C10': dict(src='c10', inst=DDP_INST, cases=(120000, 3000000)),
    'C11': dict(src='c11', inst=DDP_INST, cases=(160000, 3000000)),
    'C12': dict(src='c12', inst=DDP_INST, cases=(160000, 3000000)),
    'C13': dict(src=['c13', 'c13f'], inst=[(2, 1, 2), (2, D, D)], cases=(40000, 400000)),
    'C07': dict(src='c07', inst=None, cases=(600000, 10000000)),
    'C14': dict(src='c14', inst=None, cases=(600000, 10000000)),
    'C20': dict(src='c20', inst=FMPC_INST, cases=(160000, 3000000)),
    'C21': dict(src='c21', inst=FMPC_INST, cases=(200000, 4000000)),
    'C22': dict(src='c22', inst=FMPC_INST, cases=(200000, 4000000)),
    'C23': dict(src='c23', inst=FMPC_INST, cases=(100000, 4000000)),
    'C24': dict(src='c24', inst=FMPC_INST, cases=(100000, 2000000)),
    'C25': dict(src='c25', inst=FMPC_INST, cases=(160000, 3000000)),
    'C26': dict(src='c26', inst=FMPC_INST, cases=(160000, 3000000)),
    'C27': dict(src='c27', inst=FMPC_INST, cases=(160000, 3000000)),
    'C29': dict(src='c29', inst=None, cases=(1000000, 20000000)),
    'C28': dict(src=['c28d', 'c28f'], inst=[(1, 1, 1), (2, 1, 2), (3, 2, 1), (2, 1, 0), (2, 0, 0), (2, 0, 1)], cases=(160000, 2000000), probe='c28probe.cpp'),
    'C30': dict(src='c30', inst=None, cases=(200000, 4000000)),
    'C31': dict(src='c31', inst=None, cases=(400000, 10000000)),
    'C32': dict(src='c32', inst=None, cases=(200000, 4000000), repo_src=CG_SRC),
    'C33': dict(src='c33', inst=None, cases=(200000, 4000000), repo_src=CG_SRC),
    'C34': dict(src='c34', inst=None, cases=(160000, 3000000), repo_src=CG_SRC),
    'C35': dict(src='c35', inst=None, cases=(60000, 600000), repo_src=CG_SRC, link=['-ldl'], san=False),
    'C40': dict(src=[('c40p', None), ('c40b', None), ('c40c', None), ('c40d', [(2, 1), (2, D)]), ('c40f', [(2, 1, 2), (2, D, D)])], inst=None,
                cases=(120000, 2000000), repo_src=CG_SRC, quick_san=16000),
    'C41': dict(src=[('c41', None), ('c41c', None), ('c41d', [(2, 1), (2, D)]), ('c41f', [(2, 1, 2), (2, D, D)])], inst=None,
                cases=(100000, 1500000), repo_src=CG_SRC, link=['-pthread'], tsan=(6000, 60000)),
    'C42': dict(src=[('c42', None), ('c42d', [(2, 1), (2, D)]), ('c42f', [(2, 1, 2), (2, D, D)])], inst=None, cases=(160000, 2000000)),
    'C43': dict(src=None, inst=None, py='c43.py', cases=(24000, 400000)),
}
