"""C23: overload dispatch equals the standard library, plus forward references."""
import abc
import functools
import random
import sys
import types

from vf import pytypes as T
from vf.core import Facet, Violation, fresh_typing

TECHNIQUE = 'property-based testing: generated histories of class definitions, registrations and calls, differential against functools (Hypothesis)'
RULE = ('a case is a history of class definitions (with inheritance and abstract classes), registrations in all forms, calls and dispatch queries on a '
        'single-dispatch function or method; non-trivial: a forward reference that is registered before its class is defined or at least three registrations, '
        'and at least two calls or queries')
ASSUMPTIONS = ['while an overload refers to a class that does not exist yet, a call may raise NameError instead',
               'overloads on types that are not classes (lists, literals) are not registered']

NAMES = ['A', 'B', 'C', 'D', 'E', 'Holder']
BUILTIN = ['int', 'str', 'list', 'dict', 'bool', 'float', 'tuple', 'object', 'NoneType', 'Sequence', 'Hashable', 'Sized']
INST = {'int': '1', 'str': "'a'", 'list': '[1]', 'dict': '{}', 'bool': 'True', 'float': '1.5', 'tuple': '()', 'object': 'object()', 'NoneType': 'None'}

PREAMBLE = '''import abc, enum, typing
from collections.abc import Sequence, Hashable, Sized
from typing import Union, Optional, Any
NoneType = type(None)


class Proxy:
    """pretends to be what it stands for"""
    def __init__(self, target):
        self._target = target

    @property
    def __class__(self):
        return self._target.__class__
'''


def build(s):
    steps = []
    kind = s.pick(['function', 'function', 'method', 'method', 'classmethod', 'staticmethod'])
    names = s.sample(NAMES[:5], s.num(1, 5))
    defined = []
    pending = list(names)
    n = 0
    abcs = []
    body = kind != 'function'
    # methods are registered in the body of a class, classes may be defined before or after
    pre = s.num(0, len(names)) if body else 0

    def define():
        name = pending.pop(0)
        bases = []
        if s.b(20):
            abcs.append(name)
            bases = ['abc.ABC']
            if s.b(30) and defined:
                b = s.pick(defined)
                bases = [b, 'abc.ABC']
        elif defined and s.b(60):
            bases = s.sample(defined, s.num(1, min(2, len(defined))))
        elif s.b(20):
            bases = [s.pick(['int', 'str', 'list', 'dict'])]
        steps.append(['class', name, bases])
        defined.append(name)

    def targets(fwd):
        pool = list(defined) * 2 + BUILTIN + (pending * 3 if fwd else [])
        if fwd and not pending:
            pool = pool + defined
        return pool

    def register():
        nonlocal n
        n += 1
        form = s.pick(['ann', 'ann', 'annu', 'annp', 'exp', 'expu', 'call', 'fwd', 'fwd', 'fwd', 'fwd', 'fwdu', 'fwdp', 'fwdin', 'stack'])
        fwd = form.startswith('fwd')
        k = s.num(1, 3) if form in ('annu', 'annp', 'expu', 'fwdu', 'fwdp', 'fwdin', 'stack') else 1
        if form == 'fwdin' and k == 1:
            k = 2
        cs = []
        for _ in range(k):
            c = s.pick(targets(fwd))
            if c not in cs:
                cs.append(c)
        if form == 'call' and body:
            form = 'exp'
        steps.append(['reg', form, cs, n, s.i(4)])

    def query():
        pool = list(defined) * 3 + [b for b in BUILTIN if b in INST]
        x = s.pick(pool)
        steps.append([s.pick(['call', 'call', 'call', 'dispatch']), x, s.i(3)])

    if body:
        for _ in range(pre):
            define()
        steps.append(['body'])
        for _ in range(s.num(1, 5)):
            register()
        steps.append(['end'])
    for _ in range(s.num(2, 9)):
        k = s.i(10)
        if k < 3 and pending:
            define()
        elif k < 6:
            if body and s.b(70):
                query()
            else:
                register()
        elif k == 6 and abcs and s.b(50):
            steps.append(['abcreg', s.pick(abcs), s.pick(defined + ['int', 'list'])])
        else:
            query()
    while pending:
        define()
    for _ in range(s.num(1, 4)):
        query()
    return {'kind': kind, 'steps': steps}


def annotation(form, cs, later):
    if form in ('ann', 'exp', 'call'):
        return cs[0]
    if form in ('annu',):
        return 'Union[%s]' % ', '.join(cs)
    if form in ('annp', 'expu'):
        return ' | '.join(cs)
    if form == 'fwd':
        return repr(cs[0])
    if form == 'fwdu':
        return repr('Union[%s]' % ', '.join(cs))
    if form == 'fwdp':
        return repr(' | '.join(cs))
    if form == 'fwdin':
        return 'Union[%s]' % ', '.join(map(repr, cs))
    raise ValueError(form)


def text_of(step, kind, g='g', inside=False):
    """source of a registration"""
    _, form, cs, n, extra = step
    first = {'method': 'self, ', 'classmethod': 'cls, '}.get(kind, '')
    more = ['', ', y=None', ', y: int = 0', ', *z: str'][extra]
    ret = ['', '', ' -> str', ' -> "Unknown9"'][extra] if form not in ('ann', 'annu', 'annp', 'fwd', 'fwdu', 'fwdp', 'fwdin') else ['', '', ' -> str', ' -> int'][extra]
    lines = []
    if form == 'stack':
        lines = ['@%s.register(%s)' % (g, c) for c in cs]
        ann = ''
    elif form in ('exp', 'expu'):
        lines = ['@%s.register(%s)' % (g, annotation(form, cs, ()))]
        ann = ''
    elif form == 'call':
        ann = ''
    else:
        lines = ['@%s.register' % g]
        ann = ': ' + annotation(form, cs, ())
    if kind in ('classmethod', 'staticmethod'):
        lines.append('@' + kind)
    lines.append('def f_%d(%sx%s%s)%s:' % (n, first, ann, more, ret))
    lines.append('    return %d, %s' % (n, first[:-2] or None))
    if form == 'call':
        lines.append('%s.register(%s, f_%d)' % (g, cs[0], n))
    return lines


class Run:
    def __init__(self, case):
        self.case = case
        self.mod = types.ModuleType('disp_mod')
        self.ns = self.mod.__dict__
        self.log = []
        self.regs = []        # (id, [class names], form) in order
        self.defined = set(BUILTIN)

    def do(self, lines):
        t = '\n'.join(lines) + '\n'
        self.log.append(t)
        exec(compile(t, '<disp>', 'exec', dont_inherit=True), self.ns)

    def fail(self, msg):
        raise Violation('%s\n%s' % (msg, ''.join(self.log)))

    def reference(self):
        """a dispatcher of the standard library with everything that can be resolved, and whether something cannot"""
        ref = functools.singledispatch(lambda x: 0)
        open_ = False
        for n, cs in self.regs:
            known = [c for c in cs if c in self.defined]
            if len(known) < len(cs):
                open_ = True
                continue
            for c in cs:
                ref.register(eval(c, self.ns), lambda x, n=n: n)
        return ref, open_

    def run(self):
        from ts2python import singledispatch_shim as shim
        kind = self.case['kind']
        fresh_typing()
        sys.modules['disp_mod'] = self.mod
        try:
            exec(PREAMBLE, self.ns)
            self.ns['singledispatch'] = shim.singledispatch
            self.ns['singledispatchmethod'] = shim.singledispatchmethod
            if kind == 'function':
                self.do(['@singledispatch', 'def g(x, y=None, *z):', '    """documentation"""', '    return 0, None'])
                if self.ns['g'].__name__ != 'g' or self.ns['g'].__doc__ != 'documentation':
                    self.fail('name or documentation lost')
            buffer = None
            for st in self.case['steps']:
                if st[0] == 'class':
                    bases = st[2]
                    if self.define(st[1], bases):
                        self.defined.add(st[1])
                elif st[0] == 'body':
                    first = {'method': 'self, ', 'classmethod': 'cls, '}.get(kind, '')
                    wrapped = ['    @' + kind] if kind != 'method' else []
                    self.do(['class Base(abc.ABC):', '    @singledispatchmethod'] + wrapped +
                            ['    @abc.abstractmethod', '    def g(%sx, y=None, *z):' % first, '        pass'])
                    buffer = ['class Holder(Base):', '    @singledispatchmethod'] + (['    @' + kind] if kind != 'method' else []) + \
                        ['    def g(%sx, y=None, *z):' % first, '        return 0, %s' % (first[:-2] or None)]
                elif st[0] == 'reg':
                    if not st[1].startswith('fwd') and any(c not in self.defined for c in st[2]):
                        continue
                    lines = text_of(st, kind)
                    # decorators are applied from the last to the first
                    self.regs.append((st[3], st[2][::-1] if st[1] == 'stack' else st[2]))
                    if buffer is not None:
                        buffer += ['    ' + l for l in lines]
                    elif kind == 'function':
                        self.do(lines)
                        if st[1] != 'call' and not callable(self.ns['f_%d' % st[3]]):
                            self.fail('register does not return the function')
                    else:
                        self.do(text_of(st, kind, ['Holder.__dict__["g"]', 'Holder.g', 'h.g'][st[3] % 3]))
                elif st[0] == 'end':
                    self.do(buffer)
                    buffer = None
                    self.defined.add('Holder')
                    self.abstract()
                    self.do(['class Derived(Holder):', '    pass', 'h, h2 = Holder(), Derived()'])
                elif st[0] == 'abcreg':
                    try:
                        self.do(['%s.register(%s)' % (st[1], st[2])])
                    except (RuntimeError, TypeError, AttributeError, NameError):
                        pass      # inheritance cycle
                else:
                    self.query(st, kind)
        finally:
            del sys.modules['disp_mod']

    def abstract(self):
        """a method that is to be overridden remains so if it is dispatched"""
        self.do(['class Open(Base):', '    pass'])
        for name in ('Base', 'Open'):
            try:
                self.ns[name]()
            except TypeError:
                pass
            else:
                self.fail('%s has an abstract method, but instances' % name)
            if self.ns[name].g.__isabstractmethod__ is not True:
                self.fail('%s.g is not marked as abstract' % name)
        g = self.ns['Holder'].g
        if g.__isabstractmethod__ or g.__name__ != 'g':
            self.fail('attributes of Holder.g')

    def define(self, name, bases):
        bases = [b for b in bases if '.' in b or b in self.defined]
        try:
            self.do(['class %s(%s):' % (name, ', '.join(bases)), '    pass'])
        except TypeError:
            # no consistent order of the bases
            self.log.pop()
            self.do(['class %s:' % name, '    pass'])
        return True

    def query(self, st, kind):
        what, name, how = st
        if name not in self.defined:
            return
        ns = self.ns
        cls = eval(name, ns)
        ref, open_ = self.reference()
        try:
            want = ref.dispatch(cls)(None)
        except RuntimeError:
            want = RuntimeError
        expr = INST.get(name, name + '()')
        disp = 'g.dispatch' if kind == 'function' else 'Holder.__dict__["g"].dispatcher.dispatch'
        if what == 'dispatch' or name in ('Sequence', 'Hashable', 'Sized'):
            t = '%s(%s)' % (disp, name)
        else:
            if len(self.log) % 4 == 1:
                expr = 'Proxy(%s)' % expr
            inst = ['h', 'h2'][len(self.log) % 2]
            owner = inst if kind == 'method' or how == 0 else ['Holder', 'Derived'][len(self.log) // 2 % 2]
            bound = {'method': inst, 'classmethod': 'type(%s)' % inst if owner == inst else owner}.get(kind)
            g = 'g' if kind == 'function' else owner + '.g'
            t = '%s(%s%s)' % (g, expr, ['', ', 5', ', y=3'][how] if self.takes(want, how) else '')
        self.log.append(t + '\n')
        try:
            got = eval(t, ns)
            if what == 'dispatch':
                f = getattr(got, '__func__', got)
                got = 0 if f.__name__ == 'g' else int(f.__name__[2:])
            else:
                got, by = got
                if bound and by is not eval(bound, ns):
                    self.fail('%s is bound to %r, not to %s' % (t, by, bound))
        except RuntimeError:
            got = RuntimeError
        except NameError as e:
            if open_:
                return
            self.fail('%s although all classes are defined: %s' % (type(e).__name__, e))
        if got != want and got not in self.other_orders(cls):
            if open_ and got != RuntimeError:
                # overloads not yet resolved must not play a role
                pass
            self.fail('%s runs overload %s instead of %s' % (t, got, want))

    def other_orders(self, cls):
        """where a class is a virtual subclass of several, the result of the standard library depends on the order
        in which they have been registered, which for forward references is not defined"""
        final = {}
        for n, cs in self.regs:
            for c in cs:
                if all(x in self.defined for x in cs):
                    final[eval(c, self.ns)] = n
        out = set()
        rnd = random.Random(1)
        for _ in range(40):
            items = list(final.items())
            rnd.shuffle(items)
            ref = functools.singledispatch(lambda x: 0)
            for k, n in items:
                ref.register(k, lambda x, n=n: n)
            try:
                out.add(ref.dispatch(cls)(None))
            except RuntimeError:
                out.add(RuntimeError)
        return out if RuntimeError in out else set()

    def takes(self, want, how):
        if how == 0:
            return False
        if want == 0:
            return True
        if want is RuntimeError:
            return False
        for st in self.case['steps']:
            if st[0] == 'reg' and st[3] == want:
                return st[4] in (1, 2)
        return False


def check(case):
    Run(case).run()


def classify(case):
    labels = {'kind:' + case['kind']}
    seen = set(BUILTIN)
    fwd = False
    regs = queries = 0
    for st in case['steps']:
        labels.add('step:' + st[0])
        if st[0] == 'class':
            seen.add(st[1])
        elif st[0] == 'reg':
            regs += 1
            labels.add('form:' + st[1])
            if any(c not in seen for c in st[2]):
                fwd = True
        elif st[0] in ('call', 'dispatch'):
            queries += 1
    if fwd:
        labels.add('forward')
    return queries >= 2 and (fwd or regs >= 3), sorted(labels)


def render(case):
    return case['kind'] + '\n' + '\n'.join(str(st) for st in case['steps'])


FACETS = [Facet('histories', lambda: T.strategy(build), check, classify, 50000, 800000, render)]
