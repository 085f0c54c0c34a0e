"""Other layouts of a token sequence, steered by a tape of small numbers (0: plain)."""
from . import tsmodel as M

WORDS = ['c', 'export interface X { a: string }', "it's", '"', '{', '}', 'x = 1;', '*', '/', '// x', 'TODO: a|b', 'ü', '\\', 'type A = B;', '# no',
         "'''", '"""', 'export', '<T>', 'end', '', ' * a', '[]', '?', '@deprecated', 'http://a.b/c', '/* ', '%s %d', '{0}', '…']


class Tape(M.Style):
    def __init__(self, nums):
        self.nums = nums
        self.k = 0

    def next(self, n):
        if not self.nums:
            return 0
        v = self.nums[self.k % len(self.nums)]
        self.k += 1
        return v % n

    # style questions
    def sep(self, i, last):
        return [';', ',', '', ';', ','][self.next(5)]

    def flag(self, what):
        return self.next(3) == 1

    def comment_text(self):
        return ' '.join(WORDS[self.next(len(WORDS))] for _ in range(self.next(4)))

    def block(self):
        body = self.comment_text().replace('*/', '* /')
        k = self.next(5)
        if k == 1:
            body += '\n   ' + self.comment_text().replace('*/', '* /') + '\n'
        elif k == 2:
            body = '*\n * ' + body + '\n * \n '
        elif k == 3:
            body = ' ' + body + ' '
        elif k == 4:
            body = '*' + ' ' * body.startswith('/') + body.rstrip() + ' **'
        if body.startswith('/'):
            body = ' ' + body       # not the end of the comment
        return '/*' + body + '*/'

    def gap(self, must):
        """insignificant text between two tokens"""
        k = self.next(16)
        g = ['', ' ', '\n', '\t', ' \n\n  ', '\r\n', '  '][k] if k < 7 else ''
        if k in (7, 8):
            g = self.block()
        elif k == 9:
            g = ' ' + self.block() + ' '
        elif k == 10:
            g = self.block() + '\n'
        elif k == 11:
            g = '//' + self.comment_text() + '\n'
        elif k == 12:
            g = '  // ' + self.comment_text() + '\n    // ' + self.comment_text() + '\n\n'
        elif k == 13:
            g = '\n' + self.block() + '\n' + self.block() + ' \n'
        elif k == 14:
            g = '\u00a0\n'
        elif k == 15:
            g = '\n//\n/**/\n'
        if must and not g:
            g = ' '
        return g


def gen_tape(s, n=None):
    """sparse or dense"""
    n = s.num(1, 40) if n is None else n
    dense = s.pick([10, 30, 70, 100])
    return [s.i(480) if s.b(dense) else 0 for _ in range(n)]


def layout(toks, tape):
    """text of a token sequence in a layout of its own"""
    texts = [t for t, f in toks if t]
    out = [tape.gap(False)]
    for i, t in enumerate(texts):
        if i:
            out.append(tape.gap(M.needs_gap(texts[i - 1], t)))
        out.append(t)
    out.append(tape.gap(False))
    s = ''.join(out)
    return s if '\n' in s else s + '\n'
