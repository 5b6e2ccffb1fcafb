"""Models of io.StringIO and csv.reader for texts with symbolic characters.
The reader is the state machine of the csv module (validated, as all models,
by runs of the unmodified code)."""
import csv
import io

from . import core
from .symstr import SymStr, mk, chars_of, ch_is, is_str

Q_NONE = csv.QUOTE_NONE


class SymStringIO(io.StringIO):
    """A text stream with symbolic contents, to be read"""

    def __init__(self, text):
        super().__init__()
        self._sx_chars = list(chars_of(text))
        self._sx_pos = 0

    def read(self, n=-1):
        k = self._sx_pos
        e = len(self._sx_chars) if n is None or n < 0 else k + n
        self._sx_pos = min(e, len(self._sx_chars))
        return mk(self._sx_chars[k:e])

    def getvalue(self):
        return mk(self._sx_chars)

    def readline(self, *a):
        k = self._sx_pos
        cs = self._sx_chars
        while k < len(cs) and not is_char(cs[k], '\n'):
            k += 1
        r = cs[self._sx_pos:k + 1]
        self._sx_pos = min(k + 1, len(cs))
        return mk(r)

    def __iter__(self):
        return self

    def __next__(self):
        if self._sx_pos >= len(self._sx_chars):
            raise StopIteration
        return self.readline()

    def readlines(self, *a):
        return list(self)

    def seek(self, n, whence=0):
        self._sx_pos = n if whence == 0 else len(self._sx_chars)
        return self._sx_pos

    def tell(self):
        return self._sx_pos


def is_char(c, x):
    return ch_is(c, ('=', x), lambda y: y == x)


def in_chars(c, xs):
    return ch_is(c, ('in', xs), lambda y: y in xs)


def m_stringio(initial_value='', newline='\n'):
    if type(initial_value) is SymStr and core.ENG is not None \
            and newline == '\n':
        return SymStringIO(initial_value)
    if type(initial_value) is SymStr:
        from .symstr import concretise
        initial_value = concretise(initial_value, 'io.StringIO')
    return io.StringIO(initial_value, newline)


def m_reader(lines, dialect='excel', **kw):
    from .symhash import SymFile
    if isinstance(lines, list) and any(type(x) is SymStr for x in lines):
        symbolic = True
    else:
        symbolic = isinstance(lines, (SymStringIO, SymFile))
    if core.ENG is None or not symbolic:
        return csv.reader(lines, dialect, **kw)
    return Reader(iter(lines), csv.reader([], dialect, **kw).dialect)


class Reader:
    """csv.reader"""

    def __init__(self, lines, dialect):
        self.lines = lines
        self.dialect = dialect
        self.line_num = 0

    def __iter__(self):
        return self

    def __next__(self):
        d = self.dialect
        quoted = d.quoting != Q_NONE and d.quotechar
        fields, field = [], []
        state = 'start record'

        def save():
            fields.append(mk(list(field)))
            del field[:]

        while True:
            try:
                line = next(self.lines)
            except StopIteration:
                if field or state == 'in quotes':
                    if d.strict:
                        raise csv.Error('unexpected end of data')
                    save()
                    return fields
                raise
            self.line_num += 1
            for c in list(chars_of(line)) + [None]:
                end = c is None
                if not end and is_char(c, '\0'):
                    raise csv.Error('line contains NUL')
                nl = end or in_chars(c, '\r\n')
                if state == 'start record':
                    if end:
                        break
                    if nl:
                        state = 'eat'
                        continue
                    state = 'start field'
                if state == 'start field':
                    if nl:
                        save()
                        state = 'start record' if end else 'eat'
                    elif quoted and is_char(c, d.quotechar):
                        state = 'in quotes'
                    elif d.escapechar and is_char(c, d.escapechar):
                        state = 'escaped'
                    elif d.skipinitialspace and is_char(c, ' '):
                        pass
                    elif is_char(c, d.delimiter):
                        save()
                    else:
                        field.append(c)
                        state = 'in field'
                elif state == 'escaped':
                    field.append('\n' if end else c)
                    state = 'in field'
                elif state == 'in field':
                    if nl:
                        save()
                        state = 'start record' if end else 'eat'
                    elif d.escapechar and is_char(c, d.escapechar):
                        state = 'escaped'
                    elif is_char(c, d.delimiter):
                        save()
                        state = 'start field'
                    else:
                        field.append(c)
                elif state == 'in quotes':
                    if end:
                        pass
                    elif d.escapechar and is_char(c, d.escapechar):
                        state = 'escape in quotes'
                    elif is_char(c, d.quotechar):
                        state = ('quote in quotes' if d.doublequote
                                 else 'in field')
                    else:
                        field.append(c)
                elif state == 'escape in quotes':
                    field.append('\n' if end else c)
                    state = 'in quotes'
                elif state == 'quote in quotes':
                    if not end and is_char(c, d.quotechar):
                        field.append(c)
                        state = 'in quotes'
                    elif not end and is_char(c, d.delimiter):
                        save()
                        state = 'start field'
                    elif nl:
                        save()
                        state = 'start record' if end else 'eat'
                    elif not d.strict:
                        field.append(c)
                        state = 'in field'
                    else:
                        raise csv.Error("'%s' expected after '%s'" % (
                            d.delimiter, d.quotechar))
                elif state == 'eat':
                    if end:
                        state = 'start record'
                    elif not nl:
                        raise csv.Error('new-line character seen in '
                                        'unquoted field')
            if state == 'start record':
                return fields


def models():
    return {io.StringIO: m_stringio, csv.reader: m_reader}
