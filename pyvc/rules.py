"""Proof rules for loops of unbounded length."""
from . import terms as T, seqs as S
from .terms import Re, Unsupported, lit
from .engine import PathEnd


def seq_at(it, k):
    from .load import seq_at as f
    return f(it, k)


class WitnessLoop:
    """A loop whose body carries no state from one iteration to the next.

    Case 0: an arbitrary iteration k is executed (everything the body does is verified for it).
    Case 1: the loop completed, so in particular the iterations at the contract's
            witness indices completed; these are executed and the program goes on."""
    symbolic = True
    rebind = True           # variables set in the body are poisoned at the start of every iteration and after the loop

    def __init__(self, eng, lid, it, names, loc):
        self.eng, self.it, self.names, self.lid = eng, it, names, lid
        self.pos = 0

    def enter(self):
        e = self.eng
        n = self.it.length
        e.assume(n >= 0)
        self.case = e.choose(2, "loop " + self.lid)
        if self.case == 0:
            e.skolems += 1
            k = T.var("#k%d" % e.skolems, isint=True)
            e.assume(k >= 0)
            e.assume(k < n)
            self.todo = [k]
        else:
            self.todo = []
            for w in e.witnesses:
                if bool(T.band([w >= 0, w < n])):
                    self.todo.append(w)
        return {}

    def step(self, loc):
        if self.pos < len(self.todo):
            self.pos += 1
            return seq_at(self.it, self.todo[self.pos - 1])
        if self.case == 0:
            raise PathEnd()
        raise StopIteration


class InvRule:
    """Induction with an invariant.

    inv(k, vals) gives the loop invariant at the start of iteration k as
    a list of (label, condition); havoc(k) gives fresh values of the loop-carried variables."""
    symbolic = True

    def __init__(self, eng, lid, it, names, loc, havoc, check_entry, check_preserved, at_exit=None):
        self.eng, self.it, self.names, self.lid, self.loc = eng, it, names, lid, loc
        self.havoc, self.check_entry, self.check_preserved, self.at_exit = havoc, check_entry, check_preserved, at_exit
        self.done = False

    def enter(self):
        e = self.eng
        n = self.it.length
        self.check_entry(self.loc)
        self.case = e.choose(2, "loop " + self.lid)
        if self.case == 0:
            e.skolems += 1
            self.k = T.var("#k%d" % e.skolems, isint=True)
            e.assume(self.k >= 0)
            e.assume(self.k < n)
        else:
            self.k = n
            e.assume(n >= 0)
        return self.havoc(self.k)

    def step(self, loc):
        if self.case == 1:
            raise StopIteration
        if not self.done:
            self.done = True
            return seq_at(self.it, self.k)
        self.check_preserved(self.k, loc)
        raise PathEnd()


class MapLoop:
    """A loop that fills sequences element by element.

    The loop-carried variables are arrays or lists of symbolic length written at the loop index, and lists that start
    empty and get one element per iteration.  Case 0: an arbitrary iteration k: it writes no element but the k-th,
    appends exactly one element to the growing lists, and reads no element written by another iteration.
    Case 1: after the loop, element w of every sequence is what iteration w made of it, for the witness indices w."""
    symbolic = True

    def __init__(self, eng, lid, it, names, loc):
        self.eng, self.it, self.names, self.lid, self.loc = eng, it, names, lid, loc
        self.pos = 0

    @staticmethod
    def applies(names, loc):
        ok = [n for n in names if n in loc and (isinstance(loc[n], (S.VList, S.SymVec)) or loc[n].__class__ is list)]
        return bool(ok)

    def _fresh(self, n, v):
        rule = self

        def guard(get):
            def base(j):
                for w in rule.todo:
                    if S.same(j, w):
                        return get(w)
                raise Unsupported("element %r of '%s', of which no iteration is known" % (j, n))
            return base
        if v.__class__ is list:
            if v:
                raise Unsupported("list '%s' is not empty before the loop" % n)

            def nothing(j):
                raise Unsupported("element %r of '%s', of which no iteration is known" % (j, n))
            return S.VList(self.k0, nothing, n)
        if v.frozen:
            self.eng.fail("argument not modified", "an argument is written to")
        c = v.copy()
        old = v.copy()
        c.log = []
        c.base = guard(old.get)
        return c

    def enter(self):
        e = self.eng
        n = self.it.length
        e.assume(n >= 0)
        self.case = e.choose(2, "loop " + self.lid)
        if self.case == 0:
            e.skolems += 1
            k = T.var("#k%d" % e.skolems, isint=True)
            e.assume(k >= 0)
            e.assume(k < n)
            self.todo = [k]
        else:
            self.todo = []
            for w in e.witnesses:
                if bool(T.band([w >= 0, w < n])):
                    self.todo.append(w)
        self.k0 = self.todo[0] if self.todo else n
        self.vals, self.kind = {}, {}
        for nm in self.names:
            if nm in self.loc:
                v = self.loc[nm]
                if isinstance(v, (S.VList, S.SymVec)) or v.__class__ is list:
                    self.vals[nm] = self._fresh(nm, v)
                    self.kind[nm] = "grow" if v.__class__ is list else "fill"
        return dict(self.vals)

    def _after(self, k, loc):
        for nm, v in sorted(self.vals.items()):
            self.eng.check("the loop fills '%s' in place" % nm, loc.get(nm) is v)
            if self.kind[nm] == "grow":
                self.eng.ensure("one element per iteration", lit(v.length - k - 1, "="))
            else:
                for j, _ in v.log:
                    if not any(S.same(j, w) for w in self.todo):
                        self.eng.ensure("iteration k writes element k", lit(Re.of(j) - k, "="))

    def step(self, loc):
        if self.pos:
            self._after(self.todo[self.pos - 1], loc)
        if self.pos < len(self.todo):
            k = self.todo[self.pos]
            self.pos += 1
            for nm, v in self.vals.items():
                if self.kind[nm] == "grow":
                    v.length = Re.of(k)
            return seq_at(self.it, k)
        if self.case == 0:
            raise PathEnd()
        for nm, v in self.vals.items():
            if self.kind[nm] == "grow":
                v.length = self.it.length
        raise StopIteration


def map_rule(eng):
    def f(lid, it, names, loc):
        return MapLoop(eng, lid, it, names, loc) if MapLoop.applies(names, loc) else None
    return f
