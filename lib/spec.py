"""Per property: which obligations and roots decide it, and which reports count as violations."""
import corpus, obl, tl
from drv import Unit

PRE = '#include "nf.hpp"\n#include <string>\n#include <optional>\n#include <string_view>\nusing namespace meta::xpr::operators;\n'
MEMORY = {'oob', 'null', 'dangling', 'undef', 'write'}
FUNCTION = MEMORY | {'mismatch', 'divergence', 'trap', 'uncompilable'}

AI = ('Relational abstract interpretation of the LLVM IR that clang produces for the library code reached from each root (one pattern, method, flag set and iterator category): '
      'positions are tracked in a zone (difference-bound) domain, input bytes in a byte-set domain with equality links, and partitions are split on branches the domains cannot decide. '
      'A root is proved when no partition of all inputs up to its length bound (every one of the 256 byte values in every position) ')
TL = 'Type-level obligations are static assertions about the types the library computes, discharged by the compiler\'s semantic analysis; compile-fail witnesses are programs that must be ill-formed. '


class Spec:
    def __init__(self, prop, rule, explanation, kinds=FUNCTION, obs=False, batch=40, prelude=PRE, opts=(), level='other', **kw):
        self.prop, self.rule, self.explanation, self.kinds, self.obs, self.batch, self.prelude, self.opts, self.level = prop, rule, explanation, kinds, obs, batch, prelude, tuple(opts), level
        self.kw = kw

    def obligations(self, th):
        return getattr(obl, self.prop.lower())(th) if self.obs else ([], [])

    def roots(self, th):
        r = corpus.Roots(self.prop, **self.kw)
        getattr(corpus, self.prop.lower())(r, th)
        for u in r.units:
            u.opts = u.opts + self.opts
            if th and '--effects' not in u.opts:
                u.L += 1
        return r.units


EQ = AI + 'makes the observations of the library differ from those of the reference semantics, an independent denotational definition compiled to IR and analysed in lock-step. '
SPECS = {s.prop: s for s in [
    Spec('C01', 'no partition moves an iterator out of [begin, end], dereferences outside [begin, end), writes to the input or uses an undefined, null or dangling value',
         AI + 'moves or dereferences an iterator outside of the input range, writes to it, or uses an undefined or dangling value.', kinds=MEMORY, opts=('--safety',)),
    Spec('C02', 'library outcome = reference outcome (verdict, match extent, captures) for sequences and alternations', EQ),
    Spec('C03', 'library outcome = reference outcome for every quantifier form', EQ),
    Spec('C04', 'library outcome = reference outcome for atomic groups and possessive quantifiers', EQ),
    Spec('C05', 'content of every capturing group = content in the reference derivation', EQ),
    Spec('C06', 'library outcome = reference outcome for patterns with backreferences; undefined groups are compile errors', EQ + TL, obs=True),
    Spec('C07', 'library outcome = reference outcome for lookaheads and lookbehinds', EQ),
    Spec('C08', 'library outcome = reference outcome for anchors and word boundaries', EQ),
    Spec('C09', 'set of accepted bytes = reference set, for all 256 bytes', EQ),
    Spec('C10', 'library outcome = reference outcome under each flag set; flag sets of derived regex types are exactly as requested', EQ + TL, obs=True),
    Spec('C11', 'observations over forward, bidirectional and random-access iterators = observations over pointers',
         AI + 'makes the observations over a restricted iterator category differ from those of the library itself over pointers.', versus_pointers=True),
    Spec('C12', 'library outcome = reference outcome for whole-input, prefix and leftmost search', EQ),
    Spec('C13', 'sequence of results and end of iteration = reference sequence', EQ),
    Spec('C14', 'every partition terminates, with the reference outcome, for repetitions of bodies that can match nothing', EQ),
    Spec('C15', 'verdict and error position = those of the reference grammar; malformed patterns do not instantiate', TL + 'The patterns are all strings up to length 3 over the syntactically relevant bytes, every byte in every parser context, number and name forms, generated trees and mutations of them. ', kinds={'uncompilable'}, obs=True, batch=400),
    Spec('C16', 'normal form of the tree = normal form of the reference parse; library outcome = reference outcome of the reference parse', TL + EQ, obs=True, batch=250),
    Spec('C17', 'group count, indices and names = reference numbering; access to a missing group is a compile error', TL + EQ, obs=True),
    Spec('C18', 'normal form of the tree built by an expression = that of the expression\'s meaning; library outcome = reference outcome', TL + EQ, obs=True),
    Spec('C19', 'every accessor delivers the reference groups; owners never reach freed memory; value categories and ownership of results are as documented', TL + EQ, obs=True, prelude=PRE + obl.RESULT_DECL),
    Spec('C20', 'no reachable function allocates, throws, touches mutable globals or calls out; every entry point is noexcept and constant-evaluable',
         AI.replace(' A root is proved', ' For purity, the call graph of each root is closed over and every instruction of every reachable function inspected. A root is proved') + 'allocates, throws, terminates or touches a mutable global. ' + TL,
         kinds={'effect', 'trap', 'write', 'mismatch'}, obs=True),
]}
