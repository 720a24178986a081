"""What an analysis treats as given: contracts, unknown nodes, opaque facts."""
from .dom import *


class Cfg:
    def __init__(self):
        self.hooks = {}
        self.watch = ()

    def expansions(self, I, st, sn):
        raise Undecided("expansion of " + sn.name)

    def cell_options(self, I, st, c):
        raise Undecided("cell " + c.name)

    def recursion(self, I, st, g, args, cx):
        """summary of a recursive call, NotImplemented to analyse it in place"""
        return NotImplemented

    def materialise(self, I, st, base):
        raise Undecided("object " + str(base))

    def fact(self, st, key):
        """truth of an opaque fact; both cases are followed"""
        v = st.facts.get(key)
        if v is None:

            def yes(s):
                s.facts[key] = True

            def no(s):
                s.facts[key] = False

            raise Fork([yes, no])
        return v

    def terms_equal(self, I, st, kx, ky):
        return None

    def hash_term(self, st, name):
        return None

    def rlp_item(self, st, item, n):
        """normal form of an item of an RLP list"""
        return item
