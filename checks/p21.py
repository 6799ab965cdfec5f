"""P21: file and image properties."""
import base64
import contextlib
import io
import itertools
import json
import os
import shutil
import tempfile
import warnings

import png

import properties as P

from mc import core

PROPERTY = 'P21'
BOUNDS = ('every opening mode (and none) x every set of at most 2 (quick) / 3 '
          '(thorough) further valid modes x every handle: real files opened in '
          'each of 16 modes, open and closed, in-memory and duck-typed handles, '
          'unrelated objects, and names existing, missing or impossible; every '
          'sequence of 4 (quick) / 5 (thorough) operations on a file property '
          '(assignments, deletion, veto, closing from outside, validation); '
          '13 images in every form and at every tested read position; every '
          'sequence of 4 / 5 reads, seeks, serializations, reloads on an image')
ASSUMPTIONS = ['the files are created and removed in a scratch directory',
               'a file whose signature is that of PNG counts as PNG data',
               "opening an image by name in mode 'wb+' empties it and is "
               'left out']

MODES = ['r', 'r+', 'rb', 'rb+', 'w', 'w+', 'wb', 'wb+', 'a', 'a+', 'ab', 'ab+']
SIGNATURE = b'\x89PNG\r\n\x1a\n'


@contextlib.contextmanager
def scratch():
    path = tempfile.mkdtemp(prefix='verif-p21-')
    with warnings.catch_warnings():
        warnings.simplefilter('ignore', ResourceWarning)
        try:
            yield path
        finally:
            shutil.rmtree(path, ignore_errors=True)


def holder(prop):
    return type('Holder', (P.HasProperties,), {'p': prop})


class Duck(object):
    """A file-like object with the given attributes."""

    def __init__(self, **attrs):
        for key, val in attrs.items():
            setattr(self, key, val)

    def read(self, *_):
        return b''

    def seek(self, *_):
        pass

    def close(self):
        self.was_closed = True


class OnlyRead(object):
    def read(self):
        return ''


class OnlySeek(object):
    def seek(self, _):
        pass


class Folder(object):
    """The scratch files of one case."""

    def __init__(self, path):
        self.path = path
        self.known = os.path.join(path, 'known.txt')
        self.opened = []
        with open(self.known, 'w') as fid:
            fid.write('some text')

    def open(self, mode):
        name = self.known
        if 'x' in mode:
            name = os.path.join(self.path, 'new')
            if os.path.exists(name):
                os.remove(name)
        fid = open(name, mode)
        self.opened.append(fid)
        return fid

    def closed(self, mode):
        fid = self.open(mode)
        fid.close()
        return fid

    def close(self):
        for fid in self.opened:
            fid.close()


def reported(mode):
    """Modes that a handle with this mode attribute may have been opened in."""
    return {'rb+': {'rb+', 'wb+'}}.get(mode, {mode})


def handles():
    """(label, build(folder), usable whatever the mode, reported mode)."""
    for mode in MODES + ['x', 'xb', 'r+b', 'w+b']:
        yield ('open ' + mode, lambda f, m=mode: f.open(m), True, 'of')
        yield ('closed ' + mode, lambda f, m=mode: f.closed(m), False, 'of')
    yield 'BytesIO', lambda f: io.BytesIO(b'abc'), True, None
    yield 'StringIO', lambda f: io.StringIO('abc'), True, None

    def shut(obj):
        obj.close()
        return obj
    yield 'closed BytesIO', lambda f: shut(io.BytesIO(b'a')), False, None
    yield 'closed StringIO', lambda f: shut(io.StringIO('')), False, None
    yield 'duck', lambda f: Duck(), True, None
    yield 'open duck', lambda f: Duck(closed=False), True, None
    yield 'closed duck', lambda f: Duck(closed=True), False, None
    for mode in ('rb', 'w+', 'rb+', 'U', ''):
        yield ('duck ' + mode, lambda f, m=mode: Duck(mode=m, closed=False),
               True, 'of')
        yield ('closed duck ' + mode, lambda f, m=mode: Duck(
            mode=m, closed=True), False, 'of')
    for label, val in (('number', 5), ('bytes', b'known.txt'), ('list', []),
                       ('true', True), ('class', io.BytesIO), ('dict', {}),
                       ('float', 1.5), ('read only', OnlyRead()),
                       ('seek only', OnlySeek()), ('object', object())):
        if label == 'class':
            continue
        yield label, lambda f, v=val: v, False, None


def configs(most):
    yield None, None
    for mode in MODES:
        yield mode, None
        others = [m for m in MODES if m != mode]
        for count in range(0, most + 1):
            for extra in itertools.combinations(others, count):
                yield mode, (mode,) + extra
        for count in (len(others) - 1, len(others)):
            if count > most:
                for extra in itertools.combinations(others, count):
                    yield mode, extra + (mode,)


def make_prop(mode, valid, form):
    kwargs = {}
    if mode is not None:
        kwargs['mode'] = mode
    if valid is not None:
        kwargs['valid_modes'] = form(valid)
    return P.File('doc', **kwargs)


def accepts(mode, valid, usable, shown):
    if valid is None and mode is not None:
        valid = (mode,)
    if not usable:
        return False
    return valid is None or shown is None or bool(reported(shown) & set(valid))


def handle_states(ctx, most, part, parts):
    with scratch() as path:
        for idx, (mode, valid) in enumerate(configs(most)):
            if idx % parts != part:
                continue
            form = (tuple, list, set)[idx // parts % 3]
            prop = make_prop(mode, valid, form)
            cls = holder(prop)
            for label, make, usable, has_mode in handles():
                def one():
                    folder = Folder(path)
                    try:
                        handle_case(ctx, cls, folder, make, usable, has_mode,
                                    mode, valid)
                    finally:
                        folder.close()
                    ctx.state((mode, valid, label))
                if not core.case(ctx, (mode, valid, label), one):
                    return
            for case_name in ('existing', 'missing', 'folder', 'no folder',
                              'empty', 'null', 'text'):
                def one():
                    names(ctx, cls, path, mode, case_name)
                    ctx.state((mode, valid, case_name))
                if not core.case(ctx, (mode, valid, case_name), one):
                    return
    ctx.sample('every handle and name for every mode and valid modes')


def handle_case(ctx, cls, folder, make, usable, has_mode, mode, valid):
    value = make(folder)
    shown = getattr(value, 'mode', None) if has_mode else None
    want = accepts(mode, valid, usable, shown)
    was_closed = getattr(value, 'closed', None)
    inst = cls()
    out = core.attempt(setattr, inst, 'p', value)
    ctx.step()
    ctx.outcome((usable, shown, want))
    if not want:
        core.expect(ctx, out, P.ValidationError, 'an unusable handle')
        ctx.check(inst.p is None, 'a refused handle was stored')
        ctx.check(getattr(value, 'closed', None) == was_closed,
                  'a refused handle was closed or opened')
        del inst.p
        ctx.check(getattr(value, 'closed', None) == was_closed,
                  'deleting an undefined value closed a handle')
        return
    core.expect_ok(ctx, out, 'a usable handle')
    ctx.check(inst.p is value, 'another handle was stored')
    ctx.check(not getattr(value, 'closed', False), 'the handle was closed')
    ctx.check(inst.validate() is True, 'the instance does not validate')
    inst.p = inst.p
    ctx.check(inst.p is value, 'assigning it again changed the handle')
    built = cls(p=value)
    ctx.check(built.p is value, 'the constructor stored another handle')
    other = cls()
    other.p = value
    ctx.check(P.equal(inst, other), 'the same handle is not equal to itself')
    del inst.p
    ctx.check(inst.p is None, 'deleting leaves a value')
    if isinstance(value, Duck):
        ctx.check(getattr(value, 'was_closed', False),
                  'deleting does not close the handle')
    else:
        ctx.check(value.closed, 'deleting does not close the handle')
        # the others hold a closed file now, and may not validate
        core.expect(ctx, core.attempt(other.validate), ValueError,
                    'validating with a closed file')
    ctx.step(6)


def names(ctx, cls, path, mode, which):
    folder = Folder(path)
    new = os.path.join(path, 'missing.txt')
    if os.path.exists(new):
        os.remove(new)
    name = {'existing': folder.known, 'missing': new, 'folder': path,
            'no folder': os.path.join(path, 'none', 'x'), 'empty': '',
            'null': folder.known + '\0', 'text': 'no such file here'}[which]
    if which == 'text':
        if mode is not None and mode[0] != 'r':
            return
    can = mode is not None and (
        which == 'existing' or which == 'missing' and mode[0] != 'r')
    before = sorted(os.listdir(path))
    inst = cls()
    out = core.attempt(setattr, inst, 'p', name)
    ctx.step()
    ctx.outcome((mode, which, can))
    if not can:
        core.expect(ctx, out, P.ValidationError, 'a name that cannot be opened')
        ctx.check(inst.p is None, 'a refused name was stored')
        ctx.check(sorted(os.listdir(path)) == before, 'a file was created')
        if mode is None and which == 'existing':
            with open(folder.known) as fid:
                ctx.check(fid.read() == 'some text', 'the file was changed')
        return
    core.expect_ok(ctx, out, 'a name that can be opened')
    fid = inst.p
    try:
        ctx.check(not fid.closed and fid.name == name, 'not the file named')
        ctx.check(mode in reported(fid.mode), lambda: 'opened in mode %s '
                  'instead of %s' % (fid.mode, mode))
        ctx.check(os.path.exists(name), 'the file does not exist')
        with open(name) as again:
            text = again.read()
        ctx.check(text == ('some text' if which == 'existing' and
                           mode[0] != 'w' else ''),
                  'opening left the wrong content %r' % text)
        if '+' in mode or mode[0] == 'r':
            fid.seek(0)
            got = fid.read()
            ctx.check((got.decode() if 'b' in mode else got) == text,
                      'the file reads otherwise')
        else:
            fid.write(b'q' if 'b' in mode else 'q')
            fid.flush()
        ctx.check(inst.validate() is True, 'the instance does not validate')
        inst.p = fid
        ctx.check(inst.p is fid, 'assigning the open file changed it')
        del inst.p
        ctx.check(fid.closed, 'deleting does not close the file')
        ctx.step(3)
    finally:
        fid.close()


# -- sequences on a file property ---------------------------------------------------
class Veto(Exception):
    pass


class FileSystem(core.System):
    """A file property, two handles and a name, and an observer that vetoes."""

    def __init__(self, ctx, path, mode):
        super().__init__(ctx)
        self.folder = Folder(path)
        self.mode = mode
        system = self

        class Keeper(P.HasProperties):
            p = P.File('doc', mode=mode, required=False)

            @P.validator('p')
            def _veto(self, change):
                if system.veto:
                    raise Veto()
        self.veto = False
        self.inst = Keeper()
        self.a = self.folder.open(mode)
        self.b = self.folder.open(mode)
        self.bad = self.folder.open('w' if mode != 'w' else 'r')
        self.open = {'a': True, 'b': True}
        self.named = []
        self.value = None       # None, 'a', 'b' or index in named

    def file(self, key):
        return (self.a if key == 'a' else self.b if key == 'b' else
                self.named[key])

    def is_open(self, key):
        return self.open[key]

    def ops(self):
        return [
            ('assign a', lambda s: s.assign('a')),
            ('assign b', lambda s: s.assign('b')),
            ('assign by name', lambda s: s.by_name()),
            ('assign a missing name', lambda s: s.missing()),
            ('assign wrong mode', lambda s: s.refuse(s.bad)),
            ('delete', lambda s: s.delete()),
            ('close value', lambda s: s.shut()),
            ('close a', lambda s: s.shut('a')),
            ('veto on or off', lambda s: s.toggle()),
            ('assign None', lambda s: s.none()),
        ]

    def assign(self, key):
        out = core.attempt(setattr, self.inst, 'p', self.file(key))
        if not self.is_open(key):
            core.expect(self.ctx, out, P.ValidationError, 'assigning a closed file')
        elif self.veto:
            core.expect(self.ctx, out, Veto, 'a vetoed assignment')
        else:
            core.expect_ok(self.ctx, out, 'assigning an open file')
            self.value = key

    def by_name(self):
        out = core.attempt(setattr, self.inst, 'p', self.folder.known)
        if self.veto:
            core.expect(self.ctx, out, Veto, 'a vetoed assignment')
            return
        core.expect_ok(self.ctx, out, 'assigning a name')
        fid = self.inst.p
        self.ctx.check(fid.name == self.folder.known and not fid.closed and
                       fid is not self.a and fid is not self.b and
                       all(fid is not n for n in self.named),
                       'not a newly opened file')
        self.folder.opened.append(fid)
        self.named.append(fid)
        self.value = len(self.named) - 1
        self.open[self.value] = True

    def missing(self):
        self.refuse(os.path.join(self.folder.path, 'none', 'x'))

    def refuse(self, value):
        out = core.attempt(setattr, self.inst, 'p', value)
        core.expect(self.ctx, out, P.ValidationError, 'an unusable value')

    def none(self):
        out = core.attempt(setattr, self.inst, 'p', None)
        if self.veto:
            core.expect(self.ctx, out, (Veto, ValueError), 'assigning None')
        elif out[0] == 'ok':
            self.value = None

    def delete(self):
        out = core.attempt(delattr, self.inst, 'p')
        if self.veto:
            core.expect(self.ctx, out, Veto, 'a vetoed deletion')
            return
        core.expect_ok(self.ctx, out, 'deleting')
        if self.value is not None:
            self.open[self.value] = False
        self.value = None

    def shut(self, key=None):
        if key is None:
            key = self.value
        if key is not None:
            self.file(key).close()
            self.open[key] = False

    def toggle(self):
        self.veto = not self.veto

    def check(self):
        ctx = self.ctx
        got = self.inst.p
        if self.value is None:
            ctx.check(got is None, 'the property has a value')
        else:
            ctx.check(got is self.file(self.value),
                      'the property has another value')
        for key, want in self.open.items():
            ctx.check(self.file(key).closed is not want,
                      lambda: 'file %s is %s' % (
                          key, 'closed' if want else 'still open'))
        ctx.check(not self.bad.closed, 'a refused handle was closed')
        veto, self.veto = self.veto, False
        out = core.attempt(self.inst.validate)
        self.veto = veto
        if self.value is not None and not self.is_open(self.value):
            core.expect(ctx, out, P.ValidationError, 'validating with a closed file')
        else:
            core.expect_ok(ctx, out, 'validating')

    def key(self):
        return (self.value, tuple(sorted(map(str, self.open.items()))),
                self.veto)

    def close(self):
        self.folder.close()


def file_sequences(ctx, mode, depth):
    with scratch() as path:
        core.explore(ctx, lambda c: FileSystem(c, path, mode), depth)


# -- images ---------------------------------------------------------------------------
def images():
    """PNG bytes of several kinds."""
    out = {}
    for name, rows, kind in (
            ('grey', [[0, 255], [3, 4]], 'L;8'), ('one', [[7]], 'L;8'),
            ('deep', [[0, 65535, 12]], 'L;16'),
            ('color', [[1, 2, 3, 4, 5, 6]], 'RGB;8'),
            ('alpha', [[1, 2, 3, 4], [5, 6, 7, 8]], 'RGBA;8'),
            ('grey alpha', [[1, 2, 3, 4]], 'LA;8')):
        stream = io.BytesIO()
        png.from_array(rows, kind).write(stream)
        out[name] = stream.getvalue()
    stream = io.BytesIO()
    png.Writer(4, 1, greyscale=True, bitdepth=1).write(stream, [[1, 0, 1, 1]])
    out['bits'] = stream.getvalue()
    stream = io.BytesIO()
    png.Writer(300, 40, greyscale=True).write(
        stream, [[(i * j) % 256 for i in range(300)] for j in range(40)])
    out['large'] = stream.getvalue()
    # anything may follow the signature
    out['trailing'] = out['grey'] + b'\r\n\x00trailing\xff'
    for name, tail in (('cr', b'\r'), ('lf', b'\n'), ('crlf', b'\r\n'),
                       ('space', b' \t'), ('zero', b'\0'), ('eof', b'\x1a'),
                       ('crs', b'\r\r\n\n\r')):
        out['ends with ' + name] = out['one'] + tail
    out['newlines'] = SIGNATURE + b'\r\n\n\r\x1a\x00' * 3 + out['one'][8:]
    return out


def broken():
    good = images()['grey']
    out = {'empty': b'', 'one byte': good[:1], 'seven bytes': good[:7],
           'text': b'a text file\n', 'jpeg': b'\xff\xd8\xff\xe0\x00\x10JFIF',
           'shifted': b'\x00' + good, 'twice first': good[:1] + good,
           'gif': b'GIF89a' + good[6:], 'newline': b'\n' + good}
    for i in range(8):
        for flip in (1, 0x80):
            out['byte %d flipped %d' % (i, flip)] = (
                good[:i] + bytes([good[i] ^ flip]) + good[i + 1:])
    return out


def image_sources(path, data):
    """(label, build) of everything that holds these bytes."""
    name = os.path.join(path, 'image.png')

    def write():
        with open(name, 'wb') as fid:
            fid.write(data)
        return name
    size = len(data)
    positions = sorted({0, 1, 7, 8, 9, size // 2, size, size + 5})

    def opened(mode, pos):
        fid = open(write(), mode)
        fid.seek(pos)
        return fid

    def memory(pos):
        fid = io.BytesIO(data)
        fid.seek(pos)
        return fid

    def appended():
        fid = io.BytesIO()
        fid.write(data)
        return fid

    def temp(pos):
        fid = tempfile.TemporaryFile(dir=path)
        fid.write(data)
        fid.seek(pos)
        return fid
    yield 'name', write
    for pos in positions:
        for mode in ('rb', 'rb+', 'ab+'):
            yield ('%s at %d' % (mode, pos),
                   lambda m=mode, p=pos: opened(m, p))
        yield 'BytesIO at %d' % pos, lambda p=pos: memory(p)
        yield 'temporary file at %d' % pos, lambda p=pos: temp(p)
    yield 'written BytesIO', appended


def check_image(ctx, inst, data, filename):
    got = inst.p
    ctx.check(not got.closed and got.readable(), 'not readable')
    ctx.check(getattr(got, 'name', None) == filename, lambda: 'the name of the '
              'image is %r' % (getattr(got, 'name', None),))
    first = got.read()
    ctx.check(first == data, lambda: 'reads %r first, expected %r' % (
        first[:30], data[:30]))
    got.seek(0)
    ctx.check(got.read() == data, 'reads otherwise the second time')


def json_form(data):
    return 'data:image/png;base64,' + base64.b64encode(data).decode()


def image_forms(ctx):
    with scratch() as path:
        for filename in (None, 'own.png', ''):
            kwargs = {} if filename is None else {'filename': filename}
            cls = holder(P.ImagePNG('doc', **kwargs))
            shown = 'texture.png' if filename is None else filename
            for iname, data in images().items():
                for label, make in image_sources(path, data):
                    def one():
                        inst = cls()
                        value = make()
                        core.expect_ok(ctx, core.attempt(
                            setattr, inst, 'p', value), 'PNG data')
                        ctx.step()
                        check_image(ctx, inst, data, shown)
                        # independent of where it came from
                        name = os.path.join(path, 'image.png')
                        if os.path.exists(name):
                            os.remove(name)
                        inst.p.seek(3)
                        ctx.check(inst.validate() is True, 'validate')
                        out = inst.serialize(include_class=False)
                        ctx.check(out == {'p': json_form(data)},
                                  'serialized otherwise')
                        back = cls.deserialize(json.loads(json.dumps(out)))
                        check_image(ctx, back, data, shown)
                        ctx.check(back.p is not inst.p, 'shares the stream')
                        inst.p.seek(0)
                        ctx.check(inst.p.read() == data, 'content was lost')
                        ctx.step(3)
                        ctx.state((filename, iname, label))
                        stream = inst.p
                        del inst.p
                        ctx.check(stream.closed and inst.p is None,
                                  'deleting does not close the image')
                    if not core.case(ctx, (filename, iname, label), one):
                        return
            for iname, data in broken().items():
                for label, make in image_sources(path, data):
                    def one():
                        inst = cls()
                        core.expect(ctx, core.attempt(
                            setattr, inst, 'p', make()), P.ValidationError,
                            'data that is not PNG')
                        ctx.check(inst.p is None, 'a refused image was stored')
                        core.expect(ctx, core.attempt(
                            cls.deserialize, {'p': json_form(data)}),
                            ValueError, 'JSON of data that is not PNG')
                        ctx.step(2)
                        ctx.state((filename, iname, label))
                    if not core.case(ctx, (filename, iname, label), one):
                        return
    ctx.sample('every image and broken image from every source')


def image_values(ctx):
    """png.Image objects, and values that are no images."""
    rows = {
        'grey': ([[0, 255], [3, 4]], 'L;8'), 'deep': ([[0, 65535]], 'L;16'),
        'color': ([[1, 2, 3, 4, 5, 6]], 'RGB;8'), 'one': ([[7]], 'L;8'),
    }
    cls = holder(P.ImagePNG('doc'))
    for name, (data, kind) in rows.items():
        def one():
            inst = cls()
            inst.p = png.from_array(data, kind)
            ctx.check(not inst.p.closed and inst.p.name == 'texture.png',
                      'not a readable image')
            inst.p.seek(0)
            ctx.check(inst.p.read(8) == SIGNATURE, 'not PNG')
            inst.p.seek(0)
            got = [list(map(int, r)) for r in png.Reader(
                bytes=inst.p.read()).read()[2]]
            ctx.check(got == data, lambda: 'holds %s, expected %s' % (got, data))
            out = json.loads(json.dumps(inst.serialize(include_class=False)))
            back = cls.deserialize(out)
            got = [list(map(int, r)) for r in png.Reader(
                bytes=back.p.read()).read()[2]]
            ctx.check(got == data, 'changed by the trip')
            ctx.step(3)
            ctx.state(name)
        core.case(ctx, 'png.Image ' + name, one)
    with scratch() as path:
        data = images()['grey']
        name = os.path.join(path, 'a.png')

        def closed(fid):
            fid.close()
            return fid
        with open(name, 'wb') as fid:
            fid.write(data)
        bad = [('number', lambda: 5), ('bytes', lambda: data),
               ('list', lambda: [data]), ('missing', lambda: os.path.join(
                   path, 'none.png')), ('folder', lambda: path),
               ('empty name', lambda: ''), ('null', lambda: name + '\0'),
               ('JSON form', lambda: json_form(data)),
               ('StringIO', lambda: io.StringIO(data.decode('latin1'))),
               ('closed', lambda: closed(open(name, 'rb'))),
               ('closed memory', lambda: closed(io.BytesIO(data))),
               ('text', lambda: open(name, 'r')),
               ('text plus', lambda: open(name, 'r+')),
               ('append only', lambda: open(name, 'ab')),
               ('object', object), ('true', lambda: True),
               ('only read', OnlyRead), ('only seek', OnlySeek)]
        for label, make in bad:
            def one():
                inst = cls()
                core.expect(ctx, core.attempt(setattr, inst, 'p', make()),
                            P.ValidationError, label)
                ctx.check(inst.p is None, 'a refused value was stored')
                ctx.step()
                ctx.state(label)
                with open(name, 'rb') as fid:
                    ctx.check(fid.read() == data, 'the file was changed')
            core.case(ctx, label, one)
        # permitted modes
        every = ['rb', 'rb+', 'wb+', 'ab+']
        for mode in every:
            for count in range(4):
                for extra in itertools.combinations(
                        [m for m in every if m != mode], count):
                    valid = (mode,) + extra
                    own = holder(P.ImagePNG('doc', mode=mode,
                                            valid_modes=valid))
                    for opened in ('rb', 'rb+', 'ab+', 'name'):
                        def one():
                            inst = own()
                            if opened == 'name':
                                if mode == 'wb+':
                                    return
                                value, want = name, True
                            else:
                                value = open(name, opened)
                                want = bool(reported(opened) & set(valid))
                            out = core.attempt(setattr, inst, 'p', value)
                            ctx.step()
                            if want:
                                core.expect_ok(ctx, out, 'a permitted mode')
                                check_image(ctx, inst, data, 'texture.png')
                            else:
                                core.expect(ctx, out, ValueError,
                                            'a mode not permitted')
                                value.close()
                            with open(name, 'rb') as fid:
                                ctx.check(fid.read() == data,
                                          'the file was changed')
                            ctx.state((valid, opened))
                        core.case(ctx, (valid, opened), one)

    def wrong_json():
        for text in ('', 'data:image/png;base64', 'data:image/jpg;base64,AAAA',
                     ' ' + json_form(data), json_form(data)[5:],
                     base64.b64encode(data).decode(),
                     'DATA:IMAGE/PNG;BASE64,AAAA'):
            core.expect(ctx, core.attempt(cls.deserialize, {'p': text}),
                        ValueError, 'the JSON text %r' % text[:30])
            ctx.step()
        ctx.state('json')
    core.case(ctx, 'wrong JSON', wrong_json)
    ctx.sample('image objects, wrong values, every set of valid modes')


class ImageSystem(core.System):
    """Reads, seeks, serializations and reloads of an image."""

    def __init__(self, ctx, path):
        super().__init__(ctx)
        pics = images()
        self.first, self.second = pics['grey'], pics['color']
        self.path = os.path.join(path, 'a.png')
        with open(self.path, 'wb') as fid:
            fid.write(self.first)
        self.cls = holder(P.ImagePNG('doc'))
        self.inst = self.cls()
        self.inst.p = self.path
        self.twin = None
        self.data = self.first
        self.twin_data = None

    def ops(self):
        return [
            ('read all', lambda s: s.read(None)),
            ('read 5', lambda s: s.read(5)),
            ('seek 8', lambda s: s.inst.p.seek(8)),
            ('seek end', lambda s: s.inst.p.seek(0, 2)),
            ('serialize', lambda s: s.serialize()),
            ('reload', lambda s: s.reload()),
            ('validate', lambda s: s.ctx.check(s.inst.validate(), 'validate')),
            ('assign itself', lambda s: setattr(s.inst, 'p', s.inst.p)),
            ('assign bad', lambda s: core.expect(
                s.ctx, core.attempt(setattr, s.inst, 'p', io.BytesIO(b'a')),
                ValueError, 'bad data')),
            ('assign other', lambda s: s.other()),
            ('rewrite the source', lambda s: s.rewrite()),
            ('copy', lambda s: s.copy()),
        ]

    def read(self, count):
        pos = self.inst.p.tell()
        got = self.inst.p.read() if count is None else self.inst.p.read(count)
        end = len(self.data) if count is None else pos + count
        self.ctx.check(got == self.data[pos:end], 'reads wrong data')

    def serialize(self):
        self.ctx.check(self.inst.serialize(include_class=False) == {
            'p': json_form(self.data)}, 'serialized otherwise')

    def reload(self):
        text = json.dumps(self.inst.serialize(include_class=False))
        self.twin = self.cls.deserialize(json.loads(text))
        self.twin_data = self.data

    def copy(self):
        self.twin = P.copy(self.inst)
        self.twin_data = self.data

    def other(self):
        self.inst.p = io.BytesIO(self.second)
        self.data = self.second

    def rewrite(self):
        with open(self.path, 'wb') as fid:
            fid.write(b'gone')

    def content(self, stream):
        pos = stream.tell()
        stream.seek(0)
        data = stream.read()
        stream.seek(pos)
        return data

    def check(self):
        ctx = self.ctx
        ctx.check(self.content(self.inst.p) == self.data, 'content changed')
        if self.twin is not None:
            ctx.check(self.twin.p is not self.inst.p, 'streams are shared')
            ctx.check(self.content(self.twin.p) == self.twin_data,
                      'content of the copy changed')

    def key(self):
        return (self.inst.p.tell(), self.data, self.twin_data,
                self.twin.p.tell() if self.twin is not None else None)


def image_sequences(ctx, depth, part):
    with scratch() as path:
        core.explore(ctx, lambda c: ImageSystem(c, path), depth, part=part)


def scenarios(tier):
    quick = tier != 'thorough'
    most = 2 if quick else 3
    parts = 6 if quick else 16
    for i in range(parts):
        yield ('handles %d' % i, lambda ctx, i=i: handle_states(
            ctx, most, i, parts))
    for mode in ('r', 'rb', 'rb+', 'wb+', 'a'):
        if quick and mode in ('r', 'a'):
            continue
        yield ('sequences ' + mode, lambda ctx, m=mode: file_sequences(
            ctx, m, 4 if quick else 5))
    yield 'image forms', image_forms
    yield 'image values', image_values
    for i in range(4):
        yield ('image sequences %d' % i, lambda ctx, i=i: image_sequences(
            ctx, 3 if quick else 4, (i, 4)))
