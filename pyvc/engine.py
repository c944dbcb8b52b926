from .sym import Base
from .expr import ExprMixin
from .stmt import StmtMixin
from .builtins_ import BuiltinMixin


class Exec(BuiltinMixin, StmtMixin, ExprMixin, Base):
    def __init__(self, prog, debug=False):
        Base.__init__(self, prog, debug)
        self.statics = {}
        self.guards = []
        self.fuel = 1
        self.used_lemmas = set()
        self.used_lemma_axioms = set()
        self.allowed = None
        self.verifying = None
        self.pre_facts = []
        self.dec0 = None
        self.patience = None  # after how many seconds the remaining paths are left to other processes (self.rest)
        self.fr = None

    def prepare(self, uses):
        """compile the lemma axioms and trusted axioms a unit may use"""
        self.work = []
        self.npaths = 0
        self.reset_path(())
        self.used_lemma_axioms = set(uses)
        for u in uses:
            self.lemma_axiom(u)
        self.trusted_axioms()
