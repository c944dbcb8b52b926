"""Discharging obligations: z3 (E-matching), with portfolio retries and cvc5/z3 binaries as further back ends."""
import os
import subprocess
import tempfile
import time
import z3
from . import theory as th


def decl_names(es):
    out, seen = set(), set()
    st = list(es)
    while st:
        e = st.pop()
        k = e.get_id()
        if k in seen:
            continue
        seen.add(k)
        if z3.is_quantifier(e):
            st.append(e.body())
            for i in range(e.num_patterns()):
                st.append(e.pattern(i))
        elif z3.is_app(e):
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(e.decl().name())
            st.extend(e.children())
    return out


def pat_names(ax):
    """external functions in the patterns of a quantified axiom"""
    if not z3.is_quantifier(ax) or ax.num_patterns() == 0:
        return {x for x in decl_names([ax]) if x.startswith('ext.')}
    return {x for x in decl_names([ax.pattern(i) for i in range(ax.num_patterns())]) if x.startswith('ext.')}


def refute(goal):
    """assertions that say the goal is false: its outer universal quantifiers become constants, and the terms of their patterns exist"""
    out = []
    while True:
        if z3.is_implies(goal):
            out.append(goal.arg(0))
            goal = goal.arg(1)
        elif z3.is_quantifier(goal) and goal.is_forall():
            n = goal.num_vars()
            sk = [z3.FreshConst(goal.var_sort(i), 'sk_' + goal.var_name(i).strip('?')) for i in range(n)]
            rev = list(reversed(sk))
            for i in range(goal.num_patterns()):
                for t in goal.pattern(i).children():
                    t = z3.substitute_vars(t, *rev)
                    if t.sort() != z3.BoolSort():
                        out.append(th.mention(t))
            goal = z3.substitute_vars(goal.body(), *rev)
        else:
            return out + [z3.Not(goal)]


def pieces(goal):
    """the goal, split at its conjunctions: a list of lists of assertions, each to be refuted"""
    pre = []
    while True:
        if z3.is_implies(goal):
            pre.append(goal.arg(0))
            goal = goal.arg(1)
        elif z3.is_and(goal):
            return [pre + q for c in goal.children() for q in pieces(c)]
        elif z3.is_quantifier(goal) and goal.is_forall():
            r = refute(goal)
            pre += r[:-1]
            goal = r[-1].arg(0)
        else:
            return [pre + [z3.Not(goal)]]


def relevant(ex, facts, neg, depth, tol):
    """the facts connected to the goal by symbols that are not much more frequent than the rarest symbol of the fact (leaving facts out is sound)"""
    memo = ex.__dict__.setdefault('fact_names', {})
    fs = []
    for f in facts:
        k = f.get_id()
        if k not in memo:
            memo[k] = (f, decl_names([f]))
        fs.append(memo[k])
    occ = {}
    for f, n in fs:
        for x in n:
            occ[x] = occ.get(x, 0) + 1
    syms = decl_names(neg)
    sel = set()
    for d in range(depth):
        new = set()
        for i, (f, n) in enumerate(fs):
            if i not in sel:
                if not n:
                    sel.add(i)
                    continue
                m = tol * min(occ[x] for x in n)
                if any(occ[x] <= m for x in n & syms):
                    sel.add(i)
                    new |= n
        syms |= new
    return [f for i, (f, n) in enumerate(fs) if i in sel]


def build(ex, obl, neg=None, filt=None):
    """all assertions of the query for one obligation"""
    neg = refute(obl.goal) if neg is None else neg
    es = (list(obl.facts) if filt is None else relevant(ex, obl.facts, neg, *filt)) + neg
    names = decl_names(es)
    lemma_ax = []
    for nm in sorted(ex.used_lemma_axioms):
        lemma_ax.extend(ex.specax['lemma:' + nm][1])
    es += lemma_ax
    names |= decl_names(lemma_ax)
    used_ax = []
    done = set()
    changed = True
    while changed:
        changed = False
        for k, (fns, axs) in list(ex.specax.items()):
            if k in done or k.startswith('lemma:'):
                continue
            if k.startswith('axiom:'):
                an = decl_names(axs)
                if any(pat_names(ax) <= names for ax in axs):
                    done.add(k)
                    es += axs
                    names |= an
                    used_ax.append(k[6:])
                    changed = True
            elif any(f in names for f in fns):
                done.add(k)
                es += axs
                names |= decl_names(axs)
                changed = True
    # sequence axioms: for every element sort whose functions occur
    seqs = []
    pend = True
    while pend:
        pend = False
        for t in th._seqs.values():
            if t not in seqs and any(x.endswith('.' + t.n) or x.endswith(t.n) for x in names):
                seqs.append(t)
                ax = t.axioms()
                es += ax
                names |= decl_names(ax)
                pend = True
    es += th.lit_axioms(names)
    return es, used_ax


def smt2(es):
    s = z3.Solver()
    s.add(*es)
    return s.to_smt2()


def check(es, timeout_ms, seed=0, mbqi=False, strat=0):
    s = z3.SolverFor('ALL') if False else z3.Solver()
    s.set('timeout', timeout_ms)
    s.set('smt.mbqi', mbqi)
    s.set('smt.auto_config', False)
    s.set('smt.random_seed', seed)
    if strat == 1:
        s.set('smt.arith.solver', 2)
    if strat == 2:
        s.set('smt.case_split', 3)
    if strat == 3:
        s.set('smt.relevancy', 0)
    s.add(*es)
    t = time.time()
    r = s.check()
    return str(r), time.time() - t, (s.reason_unknown() if r == z3.unknown else ''), s


def ext_check(text, binary, timeout_s):
    f = tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False)
    f.write(text)
    f.close()
    t = time.time()
    try:
        cmd = {'cvc5': ['cvc5', '--tlimit=%d' % (timeout_s * 1000), f.name],
               'z3-4.8.12': ['z3', '-T:%d' % timeout_s, 'smt.mbqi=false', 'smt.auto_config=false', f.name]}[binary]
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout_s + 5)
        out = p.stdout.strip().split('\n')[0]
    except subprocess.TimeoutExpired:
        out = 'timeout'
    finally:
        os.unlink(f.name)
    return out, time.time() - t
