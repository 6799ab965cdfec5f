"""P22: tasks: the call protocol, and status reports."""
import contextlib
import io
import itertools
import json

import properties as P
from properties.extras import (
    BaseInput, BaseOutput, BaseTask, PermanentTaskFailure, TaskException,
    TaskStatus, TemporaryTaskFailure,
)

from mc import core

PROPERTY = 'P22'
BOUNDS = ('every combination of 30 inputs (each property valid, invalid, missing, '
          'undefined, nested and cross-checked), 26 task bodies (each kind of '
          'output and exception), 5 output processings and 3 class layouts; '
          'every sequence of 3 (quick) / 4 (thorough) calls over 9 calls on one '
          'task object, and every nesting of calls two deep; every status over '
          '18 progress x 8 message values in 3 forms')
ASSUMPTIONS = ['keywords that are no input property are ignored, as documented '
               'for deserialization',
               'a progress of nan is unspecified']


class Odd(Exception):
    pass


class Interrupt(BaseException):
    pass


ERRORS = [TemporaryTaskFailure('again'), PermanentTaskFailure('never'),
          TaskException('task'), ValueError('v'), TypeError('t'), KeyError('k'),
          AttributeError('a'), Odd('o'), Interrupt(), NotImplementedError(),
          P.ValidationError('own'), StopIteration(), ZeroDivisionError()]


# -- inputs: (keywords, valid, what the body must see) -------------------------------
def inputs():
    yield {'a': 1.5, 'b': 2.5}, {'a': 1.5, 'b': 2.5}
    yield {'a': 0., 'b': 0.}, {'a': 0., 'b': 0.}
    yield {'a': -3., 'b': 10.}, {'a': -3., 'b': 10.}
    yield {'a': 1, 'b': 2}, {'a': 1., 'b': 2.}
    yield {'a': 1., 'b': 2., 'text': 'x'}, {'a': 1., 'b': 2., 'text': 'x'}
    yield {'a': 1., 'b': 2., 'text': ''}, {'a': 1., 'b': 2., 'text': ''}
    yield {'a': 1., 'b': 2., 'count': 0}, {'a': 1., 'b': 2., 'count': 0}
    yield {'a': 1., 'b': 2., 'many': []}, {'a': 1., 'b': 2., 'many': []}
    yield ({'a': 1., 'b': 2., 'many': [1, 2, 2]},
           {'a': 1., 'b': 2., 'many': [1, 2, 2]})
    yield ({'a': 1., 'b': 2., 'part': {'num': 3}},
           {'a': 1., 'b': 2., 'part': {'num': 3}})
    yield {'a': 1., 'b': 2., 'text': None}, None
    # invalid: bounds, types, missing, the class validator, nested, coerced
    yield {'a': 1., 'b': 11.}, None
    yield {'a': 'x', 'b': 2.}, None
    yield {'a': 1.}, None
    yield {'b': 1.}, None
    yield {}, None
    yield {'text': 'only'}, None
    yield {'a': None, 'b': 1.}, None
    yield {'a': 3., 'b': 2.}, None               # the validator: a <= b
    yield {'a': 3., 'b': 2., 'text': 'x'}, None
    yield {'a': 1., 'b': 2., 'text': 5}, None
    yield {'a': 1., 'b': 2., 'count': 1.5}, None
    yield {'a': 1., 'b': 2., 'count': -1}, None
    yield {'a': 1., 'b': 2., 'many': [1, 'x']}, None
    yield {'a': 1., 'b': 2., 'many': [5, 6, 7, 8]}, None
    yield {'a': 1., 'b': 2., 'many': 3}, None
    yield {'a': 1., 'b': 2., 'part': {}}, None           # nested, required
    yield {'a': 1., 'b': 2., 'part': {'num': 'x'}}, None
    yield {'a': 1., 'b': 2., 'part': {'num': 13}}, None  # nested validator
    yield {'a': 1., 'b': 2., 'part': 5}, None


DEFAULTS = {'a': None, 'b': None, 'text': None, 'count': 7, 'many': [4],
            'part': None}


def seen(obj):
    """What the body was given, as plain data."""
    out = {}
    for name in DEFAULTS:
        val = getattr(obj, name)
        if isinstance(val, P.HasProperties):
            val = {'num': val.num}
        elif isinstance(val, (list, tuple)):
            val = list(val)
        out[name] = val
    return out


# -- bodies: name -> (build(task, input), result) --------------------------------------
# result: ('out', data) a valid output, ('error', exception), 'bad class',
# 'bad output'
def bodies():
    full = lambda **k: dict({'success': True, 'log': ''}, **k)
    yield 'plain', lambda t, i: t.Output(value=2.5), ('out', full(value=2.5))
    yield ('all given', lambda t, i: t.Output(value=0., log='done',
                                              success=False),
           ('out', {'value': 0., 'log': 'done', 'success': False}))
    yield ('sub', lambda t, i: t.Sub(value=1., extra='e'),
           ('out', full(value=1., extra='e')))
    yield ('other output', lambda t, i: t.Other(word='w'),
           ('out', full(word='w')))
    yield ('base output', lambda t, i: BaseOutput(log='l'),
           ('out', {'success': True, 'log': 'l'}))
    yield 'missing', lambda t, i: t.Output(), 'bad output'
    yield ('deleted', lambda t, i: removed(t.Output(value=1.), 'success'),
           'bad output')
    yield ('cross', lambda t, i: t.Output(value=1., success=False),
           'bad output')            # the validator: failure needs value 0
    yield ('bad part', lambda t, i: t.Output(value=1., part=t.Part()),
           'bad output')
    yield 'none', lambda t, i: None, 'bad class'
    yield 'zero', lambda t, i: 0, 'bad class'
    yield 'dict', lambda t, i: {'value': 1.}, 'bad class'
    yield 'class', lambda t, i: t.Output, 'bad class'
    yield 'input back', lambda t, i: i, 'bad class'
    yield 'has properties', lambda t, i: t.Part(num=1), 'bad class'
    yield 'list', lambda t, i: [t.Output(value=1.)], 'bad class'
    for err in ERRORS:
        yield ('raises %s' % type(err).__name__,
               lambda t, i, e=err: throw(e), ('error', err))


def removed(obj, name):
    delattr(obj, name)
    return obj


def given(obj, name, value):
    setattr(obj, name, value)
    return obj


def throw(err):
    raise err


PROCESS = ['default', 'the object', 'nothing', 'raises', 'own']
PROCESS_ERROR = Odd('processing')


def task_class(layout, body, process, log):
    """A task class; `log` records what is called, in order."""
    class PartIO(P.HasProperties):
        num = P.Integer('number')

        @P.validator
        def _unlucky(self):
            if self.num == 13:
                raise ValueError('unlucky')

    class In(BaseInput):
        a = P.Float('first')
        b = P.Float('second', max=10)
        text = P.String('text', required=False)
        count = P.Integer('count', default=7, min=0)
        many = P.List('numbers', P.Integer(''), default=lambda: [4],
                      max_length=3)
        part = P.Instance('part', PartIO, required=False)

        @P.validator
        def _ordered(self):
            log.append(('check input', self))
            if self.a is not None and self.b is not None and self.a > self.b:
                raise ValueError('not in order')

    class Out(BaseOutput):
        value = P.Float('value')
        part = P.Instance('part', PartIO, required=False)

        @P.validator
        def _failure(self):
            log.append(('check output', self))
            if not self.success and self.value:
                raise ValueError('failed with a value')

    class SubOut(Out):
        extra = P.String('extra')

    class OtherOut(BaseOutput):
        word = P.String('word')

    class Task(BaseTask):
        Input, Output, Sub, Other, Part = In, Out, SubOut, OtherOut, PartIO

        def run(self, input_obj):
            log.append(('run', input_obj, seen(input_obj), self))
            return (body or self.body)(self, input_obj)

    def process_output(self, output_obj):
        log.append(('process', output_obj))
        if process == 'the object':
            return output_obj
        if process == 'nothing':
            return None
        if process == 'raises':
            raise PROCESS_ERROR
        return ('own', output_obj.success)
    if process != 'default':
        Task.process_output = process_output
    if layout == 'inherited':
        class Derived(Task):
            pass
        return Derived
    if layout == 'derived io':
        class Wider(Task):
            class Input(In):
                more = P.String('more', required=False)

            class Output(Out):
                more = P.String('more', required=False)
        return Wider
    return Task


def call(task, kwargs):
    try:
        return ('ok', task(**kwargs))
    except (Exception, Interrupt) as err:
        return (core.ERR, err)


def expect_call(ctx, task, log, kwargs, wanted, result, process):
    """One call, against the protocol; returns the input and output objects."""
    del log[:]
    given = json.loads(json.dumps(kwargs))
    out = call(task, kwargs)
    ctx.step()
    ctx.check(kwargs == given, 'the call changed its arguments')
    runs = [e for e in log if e[0] == 'run']
    procs = [e for e in log if e[0] == 'process']
    if wanted is None:
        ctx.check(not runs, 'the body ran on invalid input')
        ctx.check(not procs, 'output was processed without a run')
        core.expect(ctx, out, (ValueError, TypeError),
                    'invalid input %s' % kwargs)
        return None
    ctx.check(len(runs) == 1, lambda: 'the body ran %d times' % len(runs))
    _, obj, data, self = runs[0]
    want = dict(DEFAULTS, **wanted)
    ctx.check(isinstance(obj, type(task).Input), 'not an input object')
    ctx.check(self is task, 'run on another task object')
    ctx.check(core.canon(data) == core.canon(want), lambda: 'the body saw %s, '
              'expected %s' % (data, want))
    first = [e[0] for e in log if e[0] != 'check output'
             and (e[0] != 'check input' or e[1] is obj)]
    ctx.check(first and first[0] == 'check input', 'the input was not '
              'validated before the run')
    if isinstance(result, tuple) and result[0] == 'error':
        ctx.check(out[0] == core.ERR and out[1] is result[1],
                  lambda: 'expected the error of the body, got %r' % (out,))
        ctx.check(not procs, 'output was processed although the body failed')
        return obj
    if isinstance(result, str):
        core.expect(ctx, out, P.ValidationError if result == 'bad class'
                    else ValueError, result)
        ctx.check(not procs, 'invalid output was processed')
        return obj
    if process == 'default':
        got = core.expect_ok(ctx, out, 'a valid call')
        ctx.check(core.canon(sorted(got.items())) == core.canon(
            sorted(result[1].items())), lambda: 'gave %s, expected %s' % (
                got, result[1]))
        return obj
    ctx.check(len(procs) == 1, 'output was not processed exactly once')
    kinds = [e[0] for e in log]
    made = procs[0][1]
    ctx.check(isinstance(made, BaseOutput), 'not an output object')
    checks = [e for e in log[:kinds.index('process')]
              if e[0] == 'check output' and e[1] is made]
    ctx.check(checks or not isinstance(made, type(task).Output),
              'the output was processed before it was validated')
    if process == 'raises':
        ctx.check(out[0] == core.ERR and out[1] is PROCESS_ERROR,
                  'expected the error of the processing')
        return obj
    got = core.expect_ok(ctx, out, 'a valid call')
    if process == 'the object':
        ctx.check(got is made, 'another object was returned')
    elif process == 'nothing':
        ctx.check(got is None, 'expected what the processing returned')
    else:
        ctx.check(got == ('own', result[1]['success']),
                  'expected what the processing returned')
    return obj


def protocol(ctx, layout):
    for (bname, body, result), process in itertools.product(bodies(), PROCESS):
        log = []
        cls = task_class(layout, body, process, log)
        task = cls()
        previous = []
        for kwargs, wanted in inputs():
            def one():
                obj = expect_call(ctx, task, log, kwargs, wanted, result,
                                  process)
                ctx.check(obj is None or all(obj is not p for p in previous),
                          'an input object was used again')
                if obj is not None:
                    previous.append(obj)
                    obj.many.append(9)      # what a body may do to its input
                ctx.outcome((wanted is None, bname, process))
                ctx.state((bname, process, str(kwargs)))
            if not core.case(ctx, (layout, bname, process, kwargs), one):
                return
    ctx.sample('every input, body and processing')


def plain_base(ctx):
    def one():
        for kwargs in ({}, {'x': 1}):
            core.expect(ctx, core.attempt(BaseTask(), **kwargs),
                        NotImplementedError, 'a task without a body')
            ctx.step()

        class Tiny(BaseTask):
            def run(self, input_obj):
                assert type(input_obj) is BaseInput
                return BaseOutput()
        ctx.check(Tiny()() == {'success': True, 'log': ''}, 'default task')
        ctx.check(Tiny.Input is BaseInput and Tiny.Output is BaseOutput,
                  'default classes of a task')
        core.expect(ctx, core.attempt(Tiny(), 5), TypeError, 'positional')
        ctx.state('base')
    core.case(ctx, 'base', one)


class Calls(core.System):
    """Sequences of calls on one task object; nothing carries over."""

    PLAN = [
        ({'a': 1., 'b': 2.}, 0, 'plain'), ({'a': 3., 'b': 2.}, None, 'plain'),
        ({'a': 'x'}, None, 'plain'), ({'a': 1., 'b': 2.}, 0, 'none'),
        ({'a': 0., 'b': 2., 'many': [1]}, 0, 'all given'),
        ({'a': 1., 'b': 2., 'text': 't'}, 0, 'raises PermanentTaskFailure'),
        ({'a': 1., 'b': 2.}, 0, 'missing'), ({'a': 1., 'b': 2.}, 0, 'cross'),
        ({'b': 1.}, None, 'all given'),
    ]
    TABLE = {name: (body, result) for name, body, result in bodies()}

    def __init__(self, ctx, process):
        super().__init__(ctx)
        self.log = []
        self.process = process
        self.task = task_class('plain', None, process, self.log)()
        self.count = 0

    def ops(self):
        return [('%s %s' % (plan[0], plan[2]), lambda s, p=plan: s.call(p))
                for plan in self.PLAN]

    def call(self, plan):
        kwargs, good, bname = plan
        body, result = self.TABLE[bname]
        self.task.body = body
        obj = expect_call(self.ctx, self.task, self.log, dict(kwargs),
                          None if good is None else kwargs, result,
                          self.process)
        if obj is not None:
            obj.many.append(self.count)
        self.count += 1
        self.ctx.check(set(vars(self.task)) == {'body'},
                       lambda: 'the task object gained %s' % sorted(
                           vars(self.task)))

    def key(self):
        return self.count


def nested(ctx):
    """A body that calls another task, or its own."""
    table = Calls.TABLE
    for inner_name, (inner_body, inner_result) in table.items():
        for catch, own, kwargs in itertools.product(
                (True, False), (True, False),
                ({'a': 1., 'b': 2.}, {'a': 3., 'b': 2.})):
            def one():
                log = []
                inner_cls = task_class('plain', None, 'default', log)
                inner = inner_cls()
                inner.body = inner_body
                results = []
                depth = [0]

                def outer(task, input_obj):
                    if depth[0]:
                        return inner_body(task, input_obj)
                    depth[0] += 1
                    target = task if own else inner
                    res = call(target, kwargs)
                    results.append(res)
                    depth[0] -= 1
                    if res[0] == core.ERR and not catch:
                        raise res[1]
                    return task.Output(value=3.)
                outer_task = task_class('plain', outer, 'default', log)()
                out = call(outer_task, {'a': 1., 'b': 2., 'text': 'outer'})
                ctx.step(2)
                ctx.check(len(results) == 1, 'the body did not run once')
                res = results[0]
                if kwargs['a'] > kwargs['b']:
                    core.expect(ctx, res, ValueError, 'invalid inner input')
                elif isinstance(inner_result, tuple) and \
                        inner_result[0] == 'error':
                    ctx.check(res[1] is inner_result[1], 'another error')
                elif isinstance(inner_result, tuple):
                    ctx.check(res == ('ok', inner_result[1]), lambda:
                              'the inner call gave %r' % (res,))
                else:
                    core.expect(ctx, res, ValueError, inner_result)
                if res[0] == core.ERR and not catch:
                    ctx.check(out[0] == core.ERR and out[1] is res[1],
                              'the error changed on its way out')
                else:
                    ctx.check(out == ('ok', {'value': 3., 'success': True,
                                             'log': ''}), 'outer result')
                runs = [e for e in log if e[0] == 'run']
                ctx.check(len(runs) == (1 if kwargs['a'] > kwargs['b'] else 2),
                          lambda: '%d runs' % len(runs))
                ctx.state((inner_name, catch, own, str(kwargs)))
            if not core.case(ctx, (inner_name, catch, own, str(kwargs)), one):
                return
    ctx.sample('every nesting of two calls')


# -- class names in the keywords, and falsy objects ---------------------------------
FALSY = {
    'plain': {},
    'false': {'__bool__': lambda self: False},
    'empty': {'__len__': lambda self: 0},
}


def class_names(ctx):
    """A class name in the keywords builds the declared class all the same."""
    for place, named, nested_name, data in itertools.product(
            ('none', 'own', 'sub', 'other', 'unknown'),
            ('absent', 'none', 'own', 'sub', 'other', 'unknown'),
            ('one', 'list', 'mapping'),
            ({'num': 3}, {'num': 'x'}, {}, {'num': 3, 'extra': 'e'})):
        def one():
            class NamedPart(P.HasProperties):
                num = P.Integer('number', min=0)

            class NamedSubPart(NamedPart):
                extra = P.Integer('extra', required=False)

            class NamedIn(BaseInput):
                a = P.Integer('first')
                part = P.Instance('part', NamedPart, required=False)
                parts = P.List('parts', P.Instance('', NamedPart),
                               required=False)
                table = P.Dictionary('table', value_prop=P.Instance(
                    '', NamedPart), required=False)

            class NamedSubIn(NamedIn):
                b = P.Integer('second', required=False)

            ran = []

            class NamedTask(BaseTask):
                Input = NamedIn

                def run(self, input_obj):
                    ran.append(input_obj)
                    return BaseOutput()

            tops = {'own': 'NamedIn', 'sub': 'NamedSubIn',
                    'other': 'NamedPart', 'unknown': 'NoSuchClass'}
            subs = {'own': 'NamedPart', 'sub': 'NamedSubPart',
                    'other': 'NamedIn', 'unknown': 'NoSuchClass'}
            kwargs = {'a': 1}
            if place in tops:
                kwargs['__class__'] = tops[place]
            item = dict(data)
            if named in subs:
                item['__class__'] = subs[named]
            if named != 'absent':
                name = {'one': 'part', 'list': 'parts',
                        'mapping': 'table'}[nested_name]
                kwargs[name] = {'one': item, 'list': [item, dict(item)],
                                'mapping': {'k': item}}[nested_name]
            out = call(NamedTask(), kwargs)
            ctx.step()
            if named != 'absent' and not isinstance(data.get('num'), int):
                core.expect(ctx, out, ValueError, 'invalid nested input')
                ctx.check(not ran, 'the body ran on invalid input')
                return
            core.expect_ok(ctx, out, 'a valid call')
            ctx.check(len(ran) == 1 and type(ran[0]) is NamedIn,
                      lambda: 'the body ran on %s' % [
                          type(r).__name__ for r in ran])
            obj = ran[0]
            ctx.check(obj.a == 1, 'another value')
            if named != 'absent':
                got = {'one': lambda: [obj.part],
                       'list': lambda: list(obj.parts),
                       'mapping': lambda: list(obj.table.values()),
                       }[nested_name]()
                ctx.check(len(got) == (2 if nested_name == 'list' else 1),
                          'another number of parts')
                for part in got:
                    ctx.check(type(part) is NamedPart and part.num == 3,
                              lambda: 'the part is a %s' % type(part).__name__)
            ctx.outcome((place, named, nested_name))
            ctx.state((place, named, nested_name, str(data)))
        if not core.case(ctx, (place, named, nested_name, str(data)), one):
            return
    ctx.sample('every class name in every place')


def falsy(ctx):
    """Objects that are false in a condition are objects like others."""
    for kin, kpart, kout, good in itertools.product(FALSY, FALSY, FALSY,
                                                    itertools.product(
                                                        (True, False),
                                                        repeat=3)):
        def one():
            part_cls = type('FalsyPart', (P.HasProperties,), dict(
                FALSY[kpart], num=P.Integer('number')))
            in_cls = type('FalsyIn', (BaseInput,), dict(
                FALSY[kin], a=P.Integer('a'), part=P.Instance(
                    'part', part_cls)))
            out_cls = type('FalsyOut', (BaseOutput,), dict(
                FALSY[kout], value=P.Integer('value')))
            ran = []

            class FalsyTask(BaseTask):
                Input = in_cls

                def run(self, input_obj):
                    ran.append(input_obj)
                    return out_cls(value=2) if good[2] else out_cls()
            kwargs = {'part': {'num': 1} if good[1] else {}}
            if good[0]:
                kwargs['a'] = 1
            out = call(FalsyTask(), kwargs)
            ctx.step()
            ctx.check(len(ran) == (1 if good[0] and good[1] else 0),
                      'the body ran %d times' % len(ran))
            if all(good):
                ctx.check(out == ('ok', {'value': 2, 'success': True,
                                         'log': ''}), lambda: 'got %r' % (out,))
                ctx.check(type(ran[0].part) is part_cls and
                          ran[0].part.num == 1, 'another part')
            else:
                core.expect(ctx, out, ValueError, 'an invalid call')
            ctx.outcome((kin, kpart, kout, good))
            ctx.state((kin, kpart, kout, good))
        if not core.case(ctx, (kin, kpart, kout, good), one):
            return
    for kind, progress in itertools.product(FALSY, (0, 0.5, 2)):
        def status():
            cls = type('FalsyStatus', (TaskStatus,), dict(FALSY[kind]))
            obj = cls(message='m')
            stream = io.StringIO()
            with contextlib.redirect_stdout(stream):
                if progress == 2:
                    del obj.progress
                    core.expect(ctx, core.attempt(
                        setattr, obj, 'progress', progress), ValueError, '2')
                obj.progress = min(progress, 1)
                out = core.attempt(BaseTask().report_status, obj)
            core.expect_ok(ctx, out, 'a status')
            ctx.check('%d%% | m' % (100 * min(progress, 1)) in
                      stream.getvalue(), lambda: stream.getvalue())
            ctx.state((kind, progress))
        if not core.case(ctx, ('status', kind, progress), status):
            return
    ctx.sample('every mix of falsy objects')


def records(ctx):
    """What the errors say, and what the default processing returns."""
    class RecordPart(P.HasProperties):
        num = P.Integer('number')

        @P.Integer('twice')
        def twice(self):
            return None if self.num is None else 2 * self.num

    class RecordIn(BaseInput):
        a = P.Integer('a')
        part = P.Instance('part', RecordPart, required=False)

    class RecordOut(BaseOutput):
        value = P.Integer('value')
        part = P.Instance('part', RecordPart, required=False)
        parts = P.List('parts', RecordPart, required=False)
        when = P.DateTime('when', required=False)
        shade = P.Color('shade', required=False)
        dull = P.Integer('', required=False)
        old = P.Renamed('dull')

        @P.Integer('derived')
        def derived(self):
            return None if self.value is None else self.value + 1

        @derived.setter
        def derived(self, value):
            self.value = value - 1

    full = {'success': True, 'log': ''}
    part = lambda n: RecordPart(num=n)
    outputs = [
        ('plain', lambda: RecordOut(value=0), {'value': 0}),
        ('dynamic', lambda: given(RecordOut(), 'derived', 5), {'value': 4}),
        ('part', lambda: RecordOut(value=1, part=part(3)),
         {'value': 1, 'part': {'num': 3}}),
        ('parts', lambda: RecordOut(value=1, parts=[part(3), part(0)]),
         {'value': 1, 'parts': [{'num': 3}, {'num': 0}]}),
        ('no parts', lambda: RecordOut(value=1, parts=[]),
         {'value': 1, 'parts': []}),
        ('shade', lambda: RecordOut(value=1, shade='red'),
         {'value': 1, 'shade': [255, 0, 0]}),
        ('renamed', lambda: RecordOut(value=1, old=2),
         {'value': 1, 'dull': 2}),
        ('log', lambda: RecordOut(value=1, log='l', success=False),
         {'value': 1, 'log': 'l', 'success': False}),
    ]

    def task(make, seen):
        class RecordTask(BaseTask):
            Input = RecordIn
            Output = RecordOut

            def run(self, input_obj):
                seen.append(make())
                return seen[-1]
        return RecordTask()

    for label, make, want in outputs:
        def one():
            seen = []
            out = call(task(make, seen), {'a': 1})
            got = core.expect_ok(ctx, out, label)
            got = json.loads(json.dumps(got))
            ctx.check(got == dict(full, **want), lambda: '%s: gave %s, '
                      'expected %s' % (label, got, dict(full, **want)))
            ctx.check(type(got['success']) is bool, 'a flag')
            ctx.step()
            ctx.state(label)
        if not core.case(ctx, ('output', label), one):
            return

    # bodies that return something else
    others = [('none', lambda: None), ('zero', lambda: 0),
              ('dict', lambda: {'value': 1}), ('class', lambda: RecordOut)]
    for kind in FALSY:
        for base in (P.HasProperties, BaseInput, RecordPart):
            cls = type('Other' + kind.title(), (base,), dict(FALSY[kind]))
            others.append(('%s %s' % (kind, base.__name__), cls))
    for label, make in others:
        def one():
            seen = []
            out = call(task(make, seen), {'a': 1})
            err = core.expect(ctx, out, P.ValidationError, label)
            tuples = getattr(err, 'error_tuples', None)
            ctx.check(tuples is not None and len(tuples) == 1,
                      lambda: '%s: error records %s' % (label, tuples))
            want = seen[0] if isinstance(seen[0], P.HasProperties) else None
            ctx.check(tuples[0].instance is want, lambda: '%s: the record is '
                      'about %r' % (label, tuples[0].instance))
            ctx.check(tuples[0].reason == 'invalid_class', lambda: '%s: '
                      'reason %s' % (label, tuples[0].reason))
            ctx.check(type(seen[0]).__name__ in tuples[0].message and
                      type(seen[0]).__name__ in str(err),
                      lambda: '%s: message %s' % (label, err))
            ctx.step()
            ctx.state(label)
        if not core.case(ctx, ('class', label), one):
            return

    # incomplete inputs and outputs: the records name what is missing
    for kwargs, place, names in (
            ({}, 'in', {'a'}), ({'a': 1, 'part': {}}, 'in', {'num'}),
            ({'a': 1}, 'out', {'value'}), ({'part': {}}, 'in', {'a', 'num'})):
        def one():
            seen = []
            out = call(task(RecordOut, seen), kwargs)
            err = core.expect(ctx, out, P.ValidationError, str(kwargs))
            ctx.check(len(seen) == (place == 'out'), 'ran on bad input')
            got = {t.prop for t in err.error_tuples}
            ctx.check(got == names, lambda: 'records name %s, expected %s' % (
                got, names))
            ctx.check(all(t.reason == 'missing' for t in err.error_tuples),
                      'reasons')
            if place == 'out':
                ctx.check(err.error_tuples[0].instance is seen[0],
                          'record about another object')
            ctx.step()
            ctx.state(str(kwargs))
        if not core.case(ctx, ('missing', str(kwargs)), one):
            return
    ctx.sample('records of every failure, results of every output')


# -- status reports --------------------------------------------------------------------
NOT_GIVEN = object()
PROGRESS = [NOT_GIVEN, 0, 0., 1, 1., 0.5, 0.29, 0.004, 0.996, 1e-9, 0.57,
            -1e-3, -1, 1.001, 2, 100, float('inf'), 'x', [], None]
MESSAGES = [NOT_GIVEN, '', 'm', 'Done | 50%', u'\u00e9', 5, ['m'], b'\xff', None]


def progress_ok(val):
    return val is NOT_GIVEN or (
        isinstance(val, (int, float)) and 0 <= val <= 1)


def message_ok(val):
    return val is NOT_GIVEN or isinstance(val, str)


class MyStatus(TaskStatus):
    more = P.String('more', required=False)


class MyTask(BaseTask):
    pass


def statuses(ctx):
    def report(task, status):
        stream = io.StringIO()
        with contextlib.redirect_stdout(stream):
            out = core.attempt(task.report_status, status)
        ctx.step()
        return out, stream.getvalue()

    for progress, message in itertools.product(PROGRESS, MESSAGES):
        good = progress_ok(progress) and message_ok(message)
        given = {k: v for k, v in (('progress', progress), ('message', message))
                 if v is not NOT_GIVEN}
        for form in ('dict', TaskStatus, MyStatus):
            for task in (BaseTask(), MyTask()):
                def one():
                    if form == 'dict':
                        status = dict(given)
                    elif not good:
                        return
                    else:
                        status = form()
                        for key, val in given.items():
                            setattr(status, key, val)
                    out, text = report(task, status)
                    if not good:
                        core.expect(ctx, out, ValueError, 'status %s' % given)
                        ctx.check(text == '', 'an invalid status was reported')
                        return
                    core.expect_ok(ctx, out, 'status %s' % given)
                    ctx.check(text.count('\n') == 1 and text.endswith('\n'),
                              'not one line')
                    head, rest = text.rstrip('\n').split(' | ', 1)
                    percent, mess = rest.split(' |', 1)
                    ctx.check(head == type(task).__name__, 'task name')
                    want = given.get('message') or ''
                    ctx.check(mess.strip() == want, 'message %r' % mess)
                    value = given.get('progress')
                    if value is not None:
                        shown = int(percent.strip().rstrip('%'))
                        ctx.check(abs(shown - 100 * value) <= 0.5001,
                                  lambda: 'progress %s shown as %s' % (
                                      value, percent))
                    ctx.outcome((good, text))
                key = (str(given), str(form), type(task).__name__)
                ctx.state(key)
                if not core.case(ctx, key, one):
                    return
    for bad in (5, 0.5, 'text', None, [], [('progress', 1)], TaskStatus, object(),
                BaseOutput(), BaseInput(), {'other': 1},
                {'progress': 0.5, 'percent': 1}, True):
        def one():
            out, text = report(MyTask(), bad)
            core.expect(ctx, out, ValueError, 'status %s' % core.show(bad))
            ctx.check(text == '', 'an invalid status was reported')
            ctx.state(core.show(bad))
        if not core.case(ctx, core.show(bad), one):
            return
    for given in ({}, {'progress': 0.5}, {'message': 'm'}):
        def one():
            status = TaskStatus(**given)
            core.expect_ok(ctx, core.attempt(status.validate),
                           'validating the status %s' % given)
            ctx.check(status.serialize(include_class=False) == given,
                      'serialized status')
            ctx.step(2)
            ctx.state(('optional', str(given)))
        core.case(ctx, ('optional', str(given)), one)
    ctx.sample('every status in every form')


def scenarios(tier):
    quick = tier != 'thorough'
    for layout in ('plain', 'inherited', 'derived io'):
        yield 'calls ' + layout, lambda ctx, la=layout: protocol(ctx, la)
    yield 'base', plain_base
    for process in PROCESS:
        yield ('sequences ' + process, lambda ctx, p=process: core.explore(
            ctx, lambda c: Calls(c, p), 3 if quick else 4))
    yield 'nested', nested
    yield 'class names', class_names
    yield 'falsy objects', falsy
    yield 'records', records
    yield 'status', statuses
