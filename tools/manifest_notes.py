NOTE_ALL = ('Every contract of the functions listed in the evidence is proved for all inputs and all iterations from the current source; a bounded random '
            'cross-check on the real code accompanies it and is never counted as proof. Trusted: the verifier pyvc, the SMT solvers, and the assumptions listed in the evidence.')
