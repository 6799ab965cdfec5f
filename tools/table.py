"""Single source of properties.jsonl and MANIFEST.json (see sync.py)."""

H = 'histories'
I = 'inputs'
C = 'configurations'
PR = 'programs'

P = []


def prop(pid, title, statement, over, text, why, files, mechanism, observe=None,
         state=None, technique=None, note=None):
    P.append(dict(
        id=pid, title=title, statement=statement, over=over, text=text, why=why,
        files=files, mechanism=mechanism, observe=observe or [],
        state=state or [], technique=technique, note=note))


prop('P01', 'Assignments are atomic and isolated; reads return the last accepted value',
     'An assignment to a property either succeeds, after which reading returns '
     'the validated (possibly coerced) value, or raises an error and leaves '
     'every property of every instance exactly as it was. Deleting a property '
     'or setting it to undefined makes it read as None, resetting restores its '
     'default, and no operation on one instance (or on a value the caller '
     'passed in earlier) ever changes another instance or class.',
     [H, I],
     'every sequence of assignments (valid, coercible, invalid, vetoed), '
     'deletions, resets and constructions over several instances',
     'Tests assert single accept/reject examples on a fresh instance; they never '
     'compare the whole state after every step of interleaved histories on '
     'several instances.',
     ['properties/basic.py', 'properties/base/base.py'],
     [('validate-then-set', 'properties/basic.py:Property.get_property'),
      ('backend store', 'properties/base/base.py:HasProperties._set'),
      ('reset', 'properties/base/base.py:HasProperties._reset')],
     technique='explicit-state exploration of the real code in lockstep with a '
               'reference model')

prop('P02', 'Primitive property types accept, coerce and reject exactly as documented',
     'For every configuration of the boolean, integer, float, complex, string, '
     'string-choice, color, datetime and URL types, a value is accepted exactly '
     'when the documentation allows it, the stored value is the documented '
     'coercion with the documented Python type, and a rejected value raises a '
     'ValueError. Validating an accepted result again leaves it unchanged, a '
     'value equals itself after coercion, and values that differ beyond the '
     'documented tolerance are not equal.',
     [I, C],
     'every configuration in a catalogue of option combinations times every '
     'value in a boundary-value alphabet (all named colors, all short strings, '
     'all numbers around the bounds)',
     'Tests try a few values per type; the guarantee is about all combinations '
     'of options (min/max/cast, strip/case/regex, choices/aliases/case) and '
     'boundary values.',
     ['properties/basic.py', 'properties/extras/web.py'],
     [('validate of each type', 'properties/basic.py'),
      ('URL.validate', 'properties/extras/web.py:URL.validate')],
     technique='exhaustive enumeration of a bounded configuration x input space '
               'against independent oracles')

prop('P03', 'Containers validate, coerce and copy every item',
     'A tuple, list, set or dictionary property, however deeply nested, accepts '
     'a value only if every item (or key and value) is valid, stores each item '
     'as coerced by the item type in a container of the declared kind (keeping '
     'a subclass), and shares no typed container with the caller, so later '
     'changes to the input change nothing. Coercion turns other containers into the '
     'declared kind and single values into one-item containers, and length '
     'limits are enforced by validation, inclusive at both ends.',
     [I, C],
     'every container type x item type x coercion flag x length limit in a '
     'bounded catalogue, nested two deep, with every short item sequence over '
     'an alphabet of valid, coercible and invalid items',
     'Tests use hand-picked lists; they do not combine nesting, coercion, '
     'limits, item types and bad items at every position.',
     ['properties/base/containers.py'],
     [('item validation and copy', 'properties/base/containers.py:Tuple.validate'),
      ('dictionary validation', 'properties/base/containers.py:Dictionary.validate'),
      ('length limits', 'properties/base/containers.py:Tuple.assert_valid')],
     technique='exhaustive enumeration of a bounded configuration x input space '
               'against a recursive oracle')

prop('P04', 'Observable containers behave like builtins and notify on every mutation',
     'With mutation observation on, any sequence of operations on a stored '
     'list, set or dictionary gives the same results, contents and errors as '
     'the builtin, and every mutation that succeeds fires one set notification '
     'for that property, whose previous value is the unmodified old contents. '
     'A mutation whose outcome is invalid, or is vetoed, raises and leaves '
     'contents and observation intact, and a container object replaced by a '
     'mutation is an ordinary container no longer tied to the instance.',
     [H],
     'every operation sequence up to a bounded depth over the full mutator, '
     'operator and in-place-operator set of list, set and dict, with valid and '
     'invalid arguments and with and without a vetoing validator',
     'Tests call each mutator once; sequences, failed mutations, stale handles '
     'and in-place operators on attributes are never combined.',
     ['properties/base/containers.py'],
     [('mutator wrapping', 'properties/base/containers.py:properties_mutator'),
      ('operator wrapping', 'properties/base/containers.py:properties_operator'),
      ('observable copy', 'properties/base/containers.py:observable_copy')],
     technique='explicit-state exploration of operation sequences in lockstep '
               'with the builtin container')

prop('P05', 'Change notifications follow the validate, store, change, set protocol',
     'Each set, delete or reset of a property first runs the validators '
     'registered for it, in registration order, before the value is stored; a '
     'validator may veto by raising, leaving everything unchanged, or replace '
     'the value. After storing, change-only observers run exactly when the '
     'value differs from the previous one, then every-set observers run, each '
     'receiving name, previous value, stored value and mode. Listeners fire '
     'only for the properties they name (or for all with the everything '
     'sentinel), on the right instance, in registration order with class-level '
     'listeners first, including for assignments made from inside a listener.',
     [H, C],
     'every listener configuration in a bounded family (class-level, inherited, '
     'instance-level, lists of names, everything, vetoing, replacing, '
     're-entrant) times every short sequence of set/delete/reset operations',
     'Tests check isolated counters; order, veto, replacement, previous values '
     'and re-entrancy interact across histories.',
     ['properties/handlers.py', 'properties/base/base.py'],
     [('notification protocol', 'properties/base/base.py:HasProperties._set'),
      ('listener registration', 'properties/handlers.py:_set_listener'),
      ('listener lookup', 'properties/handlers.py:_get_listeners')],
     technique='explicit-state exploration of histories against a reference '
               'event-log model')

prop('P06', 'Listener-disabling scopes suppress exactly their kinds, and always restore',
     'Inside a disabling context exactly the selected listener kinds '
     '(validators, set observers, change observers, or all) are silent for '
     'every instance, while type validation and storage still work. Leaving a '
     'context, normally or by an exception, at any nesting and even when one '
     'context object is re-entered or reused, restores precisely the '
     'suppression that was active when it was entered.',
     [H],
     'every well-nested sequence of entering and leaving (normally or by '
     'exception) fresh and reused contexts of each kind, with assignments in '
     'every state',
     'Tests cover a single level; nesting, re-entrance, reuse and exceptional '
     'exits multiply.',
     ['properties/handlers.py'],
     [('context stack', 'properties/handlers.py:listeners_disabled')],
     technique='explicit-state exploration of context-manager programs against '
               'a stack model')

prop('P07', 'Whole-instance validation finds every problem and leaves no residue',
     'Validating an instance succeeds exactly when every required property is '
     'set, every stored value (also nested in containers, unions and other '
     'instances, and also after in-place tampering) is valid in its coerced '
     'form, property-set validators accept the stored values, and no '
     'class validator raises or returns False. When it fails it raises one '
     'validation error listing every problem of the instance, the error hook '
     'is called once with that list, and after success or failure the instance '
     'can be used and validated again with the same answer.',
     [C, H],
     'every combination of missing, valid, and tampered values over several '
     'property types and nesting levels, times class-validator behaviours, '
     'times repetition',
     'Tests cover one failure at a time; the guarantee is about all '
     'combinations of failures at all nesting levels and about repeated calls.',
     ['properties/base/base.py', 'properties/basic.py',
      'properties/base/containers.py', 'properties/base/instance.py',
      'properties/base/union.py'],
     [('aggregation', 'properties/base/base.py:HasProperties.validate'),
      ('per-property check', 'properties/base/base.py:HasProperties._validate_props'),
      ('assert_valid', 'properties/basic.py:Property.assert_valid')],
     technique='exhaustive enumeration of instance configurations against an '
               'oracle')

prop('P08', 'Serialize, JSON and deserialize round-trip to an equal instance',
     'Serializing any instance gives a structure that the standard JSON encoder '
     'accepts, undefined properties are omitted, class names are included '
     'exactly when requested at every level, and serializing changes nothing. '
     'Deserializing the parsed JSON gives an instance of the same class whose '
     'properties are equal to the original ones, with the same types, and '
     'serializing it again gives the same structure; registered serializers '
     'and deserializers are used, with the keyword arguments passed along. The '
     'static to_json of a property type gives the same structure.',
     [I, C],
     'every property type and configuration in a catalogue, every accepted '
     'alphabet value, bare and nested in tuples, lists, sets, dictionaries, '
     'unions, and instances, with and without class names',
     'Tests round-trip a few values per type without the JSON text in between '
     'and without nesting.',
     ['properties/basic.py', 'properties/base/base.py',
      'properties/base/containers.py', 'properties/base/instance.py',
      'properties/base/union.py', 'properties/math.py'],
     [('serialize', 'properties/base/base.py:HasProperties.serialize'),
      ('deserialize', 'properties/base/base.py:HasProperties.deserialize'),
      ('to_json/from_json', 'properties/basic.py')],
     technique='exhaustive enumeration of a bounded configuration x value space '
               'with a round-trip oracle')

prop('P09', 'Deserialization picks the right class, honors strictness and spares its input',
     'Deserializing builds the class it is called on unless the input is '
     'trusted and names a class in that registry, at every nesting level; '
     'strict mode rejects class mismatches and unused keys at every level, '
     'non-strict mode ignores them, and non-dictionaries are rejected. '
     'Requesting validation raises for an invalid result, listeners do not '
     'fire, immutable values are restored, and the input structure is never '
     'modified. Filtering a dictionary by class splits it into known and other '
     'keys without loss.',
     [C, I],
     'every combination of trusted, strict, validation flag, class name in the '
     'input (absent, same, subclass, unrelated, unknown, outside the registry) '
     'at two nesting levels, extra and missing keys, and bad input',
     'Tests check single flags; combinations across nested levels, containers '
     'and registries are not.',
     ['properties/base/base.py', 'properties/base/instance.py',
      'properties/base/union.py', 'properties/utils.py'],
     [('class choice', 'properties/base/base.py:HasProperties._deserialize_class'),
      ('strict', 'properties/base/base.py:HasProperties.deserialize'),
      ('filter', 'properties/utils.py:filter_props')],
     technique='exhaustive enumeration of flag and input combinations against '
               'an oracle')

prop('P10', 'Equality is structural, symmetric and pure; copies are equal and independent',
     'Two instances are equal exactly when they have the same class and all '
     'their properties are equal (each undefined on both or equal on both, '
     'recursively through containers, unions and instances, with numeric '
     'tolerance); equality is reflexive and symmetric and leaves both operands '
     'unchanged. Copying gives an equal new instance of the same class, and no '
     'later change to either one, at any depth, affects the other.',
     [I, H],
     'every pair of instances from a bounded family that varies each property '
     'over undefined and several values, nested two deep; every mutation of '
     'copy or original after copying',
     'Tests compare a few pairs; symmetry, undefined-versus-set, nested '
     'difference and independence quantify over all pairs and mutations.',
     ['properties/base/base.py', 'properties/basic.py',
      'properties/base/containers.py', 'properties/math.py'],
     [('equal', 'properties/base/base.py:equal'),
      ('copy', 'properties/base/base.py:copy')],
     technique='exhaustive enumeration of instance pairs and copy histories '
               'against a structural oracle')

prop('P11', 'Defaults follow precedence, are fresh per instance and silent',
     'A new instance has, for each property, the class-level default declared '
     'for it nearest in its inheritance order, otherwise the property default, '
     'otherwise the type default, otherwise undefined; callable defaults are '
     'called for each instance so mutable defaults are never shared. Setting '
     'defaults fires no listener, keyword arguments override them, and '
     'resetting restores the same default with notification.',
     [C, H],
     'every combination of where defaults are declared (type, property, '
     'class-level at each level of linear and multiple inheritance; value, '
     'callable, undefined) times construction, mutation and reset',
     'Tests use one declaration site at a time and one instance.',
     ['properties/base/base.py', 'properties/basic.py'],
     [('class defaults', 'properties/base/base.py:PropertyMetaclass.__new__'),
      ('instance defaults', 'properties/base/base.py:PropertyMetaclass.__call__'),
      ('reset', 'properties/base/base.py:HasProperties._reset')],
     technique='exhaustive enumeration of class hierarchies against a '
               'resolution-order oracle')

prop('P12', 'Inheritance composes properties, observers and validators like attributes',
     'In any class hierarchy, each name resolves to the definition that '
     'standard method resolution order selects: an overriding property, '
     'observer or validator replaces the inherited one and fires once, '
     'overriding by a plain attribute removes it, and everything else is '
     'inherited. Each property keeps its own name and behaviour on every '
     'class, classes never alter their bases or siblings, and every class '
     'appears in the registry of its nearest registry-declaring ancestor.',
     [PR],
     'every hierarchy of up to four classes in chain, fork and diamond shapes '
     'with each class independently defining, overriding or removing each kind '
     'of member',
     'Tests define a handful of hierarchies; the guarantee is over all small '
     'hierarchies.',
     ['properties/base/base.py'],
     [('member composition', 'properties/base/base.py:build_from_bases'),
      ('metaclass', 'properties/base/base.py:PropertyMetaclass.__new__')],
     technique='exhaustive enumeration of small class hierarchies against '
               "Python's own resolution order")

prop('P13', 'Unions use the first member that accepts',
     'A union accepts a value exactly when some member accepts it and stores '
     'the result of the first accepting member in declared order; rejection '
     'raises one error naming the property. Validity, serialization, '
     'deserialization (which also honors a class name in the input and '
     'strict-instance mode) and equality agree with that member, and its '
     'default is the explicit one or the first member default.',
     [C, I],
     'every ordered pair and triple of member types from a catalogue times '
     'every value in the union of their alphabets, plus nested unions and '
     'unions in containers',
     'Tests use a few unions; ordering matters for every combination of '
     'overlapping member types.',
     ['properties/base/union.py'],
     [('first success', 'properties/base/union.py:Union._try_prop_method'),
      ('serialize', 'properties/base/union.py:Union.serialize'),
      ('deserialize', 'properties/base/union.py:Union.deserialize')],
     technique='exhaustive enumeration of union configurations x inputs '
               'against a first-match oracle')

prop('P14', 'Links keep linked values in step and stop exactly while unlinked',
     'While active, a directional link sets its target to the (transformed) '
     'source value whenever the source changes - or is set at all, when '
     'requested - and at creation only if requested; a link among several '
     'items keeps them all equal. Unlinked links do nothing, relinked links '
     'work again, links never fire backwards, cycles of links terminate, and '
     'links between property and trait objects behave the same.',
     [H, C],
     'every topology of links over up to three items (chains, cycles, '
     'multi-links, property and trait ends, transforms, flags) times every '
     'short history of sets, deletions, unlinks and relinks',
     'Tests exercise one topology at a time with one or two sets.',
     ['properties/link.py'],
     [('update guard', 'properties/link.py:directional_link._update'),
      ('multi-link', 'properties/link.py:link')],
     technique='explicit-state exploration of link topologies and histories in '
               'lockstep with a model')

prop('P15', 'Singletons are unique per name in their registry',
     'Constructing or deserializing a singleton with an identifying name that '
     'is already taken in that registry returns the existing object, '
     'unchanged; otherwise it creates it, and separate registries never see '
     "each other. The identity survives renaming, serialization carries it, "
     'deserialization leaves its input alone, and a failed construction '
     'registers nothing.',
     [H],
     'every sequence of construct, rename, serialize, deserialize and copy '
     'operations over two names, three classes and two registries',
     'Tests walk one history; identity depends on the whole history.',
     ['properties/extras/singleton.py'],
     [('registry lookup', 'properties/extras/singleton.py:SingletonMetaclass.__call__'),
      ('deserialize', 'properties/extras/singleton.py:Singleton.deserialize')],
     technique='explicit-state exploration of histories in lockstep with a '
               'dictionary model')

prop('P16', 'Unique-identifier graphs serialize flat and rebuild with the same topology',
     'Any graph of identified instances, including shared and self references, '
     'serializes to one flat dictionary with a root and one entry per '
     'reachable instance, and deserializing it where those identifiers are '
     'free rebuilds the same topology with the same classes and values. An '
     'identifier in use is refused for another instance, loading finds exactly '
     'the registered instance, pointers accept instances and identifiers as '
     'documented, and the input dictionary is left alone.',
     [I, H],
     'every directed graph over up to three nodes (all edge sets through '
     'instance, pointer and list edges) round-tripped; every short history of '
     'creations, renames and loads',
     'Tests use one or two graphs; topology bugs depend on sharing and cycles.',
     ['properties/extras/uid.py'],
     [('flat serialize', 'properties/extras/uid.py:HasUID.serialize'),
      ('rebuild', 'properties/extras/uid.py:HasUID.deserialize'),
      ('pointer', 'properties/extras/uid.py:Pointer.validate')],
     technique='exhaustive enumeration of small graphs and histories on the '
               'real code against a graph model')

prop('P17', 'Renamed and dynamic properties are faithful views of stored state',
     'Getting, setting or deleting through a renamed property has exactly the '
     'effect of the new name plus a deprecation warning (unless switched off), '
     'also in constructor arguments and deserialization. A dynamic property '
     'always reflects the current state as validated by its type, sets and '
     'deletes only through its registered functions (otherwise refusing), '
     'stores nothing, and is serialized only on request.',
     [H],
     'every short sequence of reads, sets, deletions, resets and round trips '
     'through old and new names and dynamic views',
     'Tests check each access once; consistency of the views quantifies over '
     'histories.',
     ['properties/basic.py', 'properties/base/base.py'],
     [('renamed', 'properties/basic.py:Renamed.get_property'),
      ('dynamic', 'properties/basic.py:DynamicProperty.get_property')],
     technique='explicit-state exploration of histories in lockstep with a '
               'model')

prop('P18', 'Immutable properties never change after construction',
     'An immutable property gets its default when the instance is created - '
     'validated, computed anew for each instance when callable - and keeps '
     'that value whatever happens afterwards: setting, deleting, resetting and '
     'passing it to the constructor raise and change nothing. Generated unique '
     'identifiers differ between instances, and only deserialization restores '
     'a saved immutable value.',
     [H, C],
     'every sequence of attempted changes over immutable declarations '
     '(constant, callable, class-level default, inherited, generated '
     'identifiers)',
     'Tests try one assignment; the guarantee covers every route to change.',
     ['properties/basic.py', 'properties/base/base.py'],
     [('no setter', 'properties/basic.py:GettableProperty.get_property'),
      ('defaults at creation', 'properties/base/base.py:PropertyMetaclass.__call__')],
     technique='explicit-state exploration of histories in lockstep with a '
               'model')

prop('P19', 'Generated documentation lists every public property, once, correctly',
     "A class's documentation keeps its own text and lists each public "
     'property exactly once - required, optional and other separately - with '
     'its name, type, doc text, description and default, alphabetically or in '
     'the declared order; private ones appear only on request. A declared '
     'order that is not exactly the documented properties is refused, and '
     'property objects report their name, class, arguments and tags.',
     [C],
     'every subset of a set of public/private, required/optional/immutable '
     'properties, with and without order and private flags, across inheritance',
     'Tests check a few strings; completeness quantifies over class shapes.',
     ['properties/base/base.py', 'properties/basic.py'],
     [('doc builder', 'properties/base/base.py:PropertyMetaclass.__new__'),
      ('sphinx', 'properties/basic.py:GettableProperty.sphinx')],
     technique='exhaustive enumeration of class declarations against an oracle')

prop('P20', 'Array and vector properties enforce shape and type, and scale as asked',
     'Array and vector properties accept exactly the arrays (or nested lists, '
     'tuples and documented direction names, when coercing) whose shape and '
     'number type match one of the allowed ones, and give the documented class '
     'with the same numbers; with a length set, every vector is scaled to that '
     'length and zero vectors are refused. The input object is never changed '
     'while coercing, and values (nan and infinities included) survive '
     'serialization, JSON text and deserialization.',
     [I, C],
     'every shape specification x dtype option x coercion x input shape up to '
     'three dimensions of length 0..3 x number kind, and every direction name',
     'Tests try a few shapes; the guarantee covers all shape/dtype pairings.',
     ['properties/math.py'],
     [('shape and dtype', 'properties/math.py:Array.validate'),
      ('length', 'properties/math.py:BaseVector.validate'),
      ('JSON', 'properties/math.py:Array.to_json')],
     technique='exhaustive enumeration of a bounded configuration x input space '
               'against an independent oracle')

prop('P21', 'File and image properties accept only usable handles and keep content',
     'A file property accepts an open file-like object in a permitted mode, or '
     'a name it can open in its mode, and refuses closed, wrongly-opened or '
     'unrelated objects with a ValueError; deleting the property closes the '
     'file. An image property accepts exactly PNG data (file, name or image '
     'object), keeps an independent readable copy with the same bytes, and '
     'round-trips it through JSON wherever the read position is.',
     [C, I],
     'every mode x valid-modes x handle state (open in each mode, closed, '
     'in-memory, name existing or missing) in a scratch directory; every short '
     'sequence of reads, seeks and serializations of an image',
     'Tests open one or two files; combinations of modes and handle states are '
     'not covered.',
     ['properties/basic.py', 'properties/images.py'],
     [('file validation', 'properties/basic.py:File.validate'),
      ('image validation', 'properties/images.py:ImagePNG.validate')],
     technique='exhaustive enumeration of configurations and histories in a '
               'scratch directory against an oracle')

prop('P22', 'Tasks run only on valid input and return only valid output',
     'Calling a task validates its input first and runs the task body exactly '
     'once, only if the input is valid, with exactly the values given; the '
     'output must be an output object that validates, and the caller gets its '
     'processed form. Otherwise the call raises, task errors propagate '
     'unchanged, and status reports accept exactly valid statuses.',
     [I, C],
     'every combination of input validity, task-body behaviour (valid, '
     'invalid, wrong-type output, each exception), output processing override '
     'and repetition',
     'Tests run one or two paths.',
     ['properties/extras/task.py'],
     [('call protocol', 'properties/extras/task.py:BaseTask.__call__'),
      ('status', 'properties/extras/task.py:BaseTask.report_status')],
     technique='exhaustive enumeration of call configurations against a '
               'protocol model')

prop('P23', 'Construction by keywords equals assignment, and refuses bad input completely',
     'Constructing with keyword arguments yields the same state and the same '
     'notifications as constructing empty and then assigning the values. '
     'Unknown names, dynamic and immutable properties are refused, and invalid '
     'values raise one validation error that lists every invalid property, '
     'with the error hook called once with all of them; nothing of a failed '
     'construction remains visible.',
     [I, C],
     'every subset of keyword arguments with each value valid, coercible, '
     'invalid, undefined, vetoed, or of an unknown/immutable/dynamic name',
     'Tests try one bad keyword; aggregation over all combinations is not '
     'covered.',
     ['properties/base/base.py'],
     [('constructor', 'properties/base/base.py:HasProperties.__init__')],
     technique='exhaustive enumeration of keyword combinations against an '
               'assignment-by-assignment oracle')

prop('P24', 'Self-referencing instances terminate everywhere and leave no residue',
     'On any graph of instances, validation, equality, serialization and '
     'copying terminate: validation gives the right verdict for every '
     'reachable instance, serialization and copying raise a self-reference '
     'error exactly when a cycle can be reached, equality of an instance with '
     'itself holds, and different instances are never called equal when their '
     'graphs differ. After any of them, whether it succeeded or '
     'raised at any point, all instances behave as before.',
     [I, H],
     'every directed graph over up to three instances with two reference '
     'properties each (one plain, one in a container or union), with each node valid or '
     'invalid, times every short sequence of operations',
     'Tests use one self-loop; residue shows only in sequences on cyclic '
     'graphs.',
     ['properties/base/base.py', 'properties/base/instance.py'],
     [('recursion guards', 'properties/base/base.py:HasProperties.validate'),
      ('serialize guard', 'properties/base/base.py:HasProperties.serialize'),
      ('equality guard', 'properties/base/base.py:equal')],
     technique='exhaustive enumeration of small object graphs x operation '
               'sequences against a reachability oracle')

prop('P25', 'Invalid declarations are refused when the class or property is defined',
     'Declaring a property with an unknown, private or invalid option, with '
     'contradictory limits or with an invalid default, or declaring a class '
     'whose observers, renamed properties, defaults or ordering refer to '
     'something that does not exist or cannot be observed, raises immediately. '
     'Every valid combination of options is accepted and reads back as given.',
     [C],
     'every option of every property type with a catalogue of valid and '
     'invalid values, pairs of limits in both orders, and every kind of bad '
     'class declaration',
     'Tests try some bad options; completeness over types and options is not '
     'covered.',
     ['properties/basic.py', 'properties/base/base.py',
      'properties/base/containers.py', 'properties/base/union.py',
      'properties/base/instance.py', 'properties/math.py',
      'properties/handlers.py', 'properties/images.py'],
     [('option setters', 'properties/basic.py:GettableProperty.__init__'),
      ('class checks', 'properties/base/base.py:PropertyMetaclass.__new__')],
     technique='exhaustive enumeration of declarations against an accept/reject '
               'table')

prop('P26', 'Validation errors identify the culprit',
     'Every rejected assignment raises a ValueError whose message names the '
     'property, its class and what was expected, and whose error records carry '
     'the message, a reason (missing or invalid), the property name and the '
     'instance. The owner can customize handling: its error hook is called, '
     'before the error reaches the caller, with the records of the error when '
     'the type of a property rejects an assignment, when construction fails '
     '(once) and when validation fails (once, with the records of all '
     'problems), and never when the operation succeeds.',
     [I, C],
     'every property type x every rejected alphabet value, bare and nested in '
     'containers, unions and instances, on direct assignment, construction and '
     'validation',
     'Tests check messages for a few types.',
     ['properties/utils.py', 'properties/basic.py', 'properties/base/base.py'],
     [('error', 'properties/basic.py:GettableProperty.error'),
      ('error record', 'properties/utils.py:ValidationError')],
     technique='exhaustive enumeration of rejected inputs x contexts against an '
               'oracle')

prop('P27', 'Registered serializers and deserializers replace the built-in conversion',
     'A serializer or deserializer registered on a property converts its '
     'values instead of the built-in conversion wherever that property is '
     'used: on an instance, as item, key or value of a container, as member '
     'of a union, in nested and identified instances, for dynamic values and '
     'by old names, and in copies. It is called once for each value it '
     'converts, in order, with the stored value (or the serialized data) and, '
     'if it takes keywords, with those of the call, including the effective '
     'include_class and save_dynamic, or trusted and strict. Its result is '
     'used as it is: a serialized None is left out, and a deserialized value '
     'is accepted exactly as if it were assigned. A converter on a container '
     'takes precedence over those of its items. An error of a converter '
     'reaches the caller and leaves the instance as usable as before.',
     [I, C],
     'leaf types x holders x places of the converters x kinds of callables x '
     'flags, both directions; every result kind; failing converters',
     'Tests register converters on a few single properties.',
     ['properties/basic.py', 'properties/base/base.py',
      'properties/base/containers.py', 'properties/base/union.py',
      'properties/base/instance.py', 'properties/extras/uid.py',
      'properties/math.py'],
     [('converters', 'properties/basic.py:GettableProperty.serialize'),
      ('keywords', 'properties/basic.py:accept_kwargs'),
      ('items', 'properties/base/containers.py:Tuple.serialize')],
     technique='exhaustive enumeration of configurations x values x flags '
               'against a call log and an oracle')

prop('P28', 'Pickled and deep-copied instances come back equal, alive and alone',
     'Pickling and unpickling an instance with any protocol, or copying it '
     'with copy.deepcopy, gives an instance of the same class that reads '
     'every property as the original does, with values of the same types; '
     'undefined properties stay undefined and nothing is notified. Shared '
     'and cyclic references come back shared and cyclic in the same way. '
     'The result shares no mutable value or instance with the original; its '
     'defaults, validators, observers, registered callbacks and links work '
     'as before, on it alone, and the original hears and loses nothing.',
     [I, H],
     'value types x values x protocols, small instance graphs, and programs '
     'of changes, registrations and copies on originals and copies',
     'Tests unpickle one chain of three instances and never use the result.',
     ['properties/base/base.py', 'properties/handlers.py',
      'properties/link.py'],
     [('instance state', 'properties/base/base.py:PropertyMetaclass.__call__'),
      ('listeners', 'properties/handlers.py:_set_listener'),
      ('links', 'properties/link.py:directional_link')],
     technique='exhaustive enumeration of values, graphs and operation '
               'sequences in lockstep with a reference model')

prop('P29', 'Property types of the user work wherever a property works',
     'A class that extends Property or any property type by its own validate, '
     'equal, to_json and from_json, info or class_info, _class_default, '
     'assert_valid, sphinx_class or options behaves by these methods: on an '
     'instance, behind an old name, as item, key or value of a container, as '
     'member of a union, for dynamic and immutable values and in nested '
     'instances. Its validate decides what is stored and is told the owning '
     'instance; its equal decides change detection, equality of instances and '
     'validity; its to_json and from_json convert values and are given the '
     'keywords of the call; its info and links appear in messages and '
     'documentation; its class default is used, once per instance, unless a '
     'default is given. What it does not define works as in the class it '
     'extends.',
     [I, C],
     'subsets of overridden methods (in one class or two) and extensions of '
     'the standard types x holders x pairs of values x operations',
     'Tests define one custom property and check its documentation.',
     ['properties/basic.py', 'properties/base/base.py',
      'properties/base/containers.py', 'properties/base/union.py',
      'properties/base/instance.py'],
     [('contract', 'properties/basic.py:GettableProperty'),
      ('items', 'properties/base/containers.py:Tuple'),
      ('equality', 'properties/base/base.py:equal')],
     technique='exhaustive enumeration of type definitions x holders x values '
               'x operations against an oracle')

prop('P30', 'Instances are handled through the methods of their own class',
     'A class may override __init__ (with arguments of its own), serialize, '
     'deserialize, validate and the methods used as listeners and validators, '
     'and extend them by super(). Wherever an instance is held (on its own, '
     'in containers, unions and nested instances, by old names, dynamically), '
     'constructing, saving, loading, copying and validating go through these '
     'methods, which are given the keywords of the call; what they raise '
     'reaches the caller. Every instance is completely set up, with its '
     'defaults and its listeners, before its constructor runs, whatever the '
     'constructor does or leaves out, and instances share nothing.',
     [C, I],
     'subsets of overridden methods x the class that overrides them x holders '
     'x contents x operations; constructors x ways to construct; hierarchies '
     'of overriding listeners and validators',
     'Tests override constructors once or twice and never serialize, '
     'deserialize or validate.',
     ['properties/base/base.py', 'properties/base/instance.py'],
     [('construction', 'properties/base/base.py:PropertyMetaclass.__call__'),
      ('dispatch', 'properties/base/instance.py:Instance'),
      ('listeners', 'properties/base/base.py:HasProperties._notify')],
     technique='exhaustive enumeration of class definitions x holders x '
               'operations against an oracle and a call log')

prop('P31', 'Operations started inside callbacks work as outside and leave no trace',
     'Whatever user code the library calls (observers, validators, class '
     'validators, error hooks, defaults, getters and setters, serializers '
     'and deserializers, transforms of links, methods of own property types, '
     'constructors) may itself set, delete, reset, validate, compare, save, '
     'load, copy, construct, link, observe or disable listeners, on the same '
     'instance or another one, and may fail. These operations then do what '
     'they do outside callbacks, the operation that is under way goes on '
     'with its own result, and afterwards every operation works as before, '
     'also when an exception or an interrupt left the callback. Only '
     'serializing an instance that is being serialized is refused, and '
     'validating one that is being validated or constructed is put off.',
     [PR, C],
     'operations x the callbacks they run x operations run there x the '
     'instance concerned x first or every call',
     'Tests set properties inside observers a few times and never nest two '
     'operations otherwise, nor look at what they leave behind.',
     ['properties/base/base.py', 'properties/basic.py',
      'properties/handlers.py', 'properties/link.py'],
     [('guards', 'properties/base/base.py:HasProperties.validate'),
      ('serialization guard', 'properties/base/base.py:HasProperties.serialize'),
      ('listeners', 'properties/handlers.py:listeners_disabled')],
     technique='exhaustive enumeration of nested operations on the real code, '
               'compared with the same operations performed apart')

prop('P32', 'The library works alike in every environment, without optional packages too',
     'numpy, vectormath, pypng and traitlets are optional: with any of them '
     'absent or broken the library and its extras import without them, offer '
     'every public name except the arrays and vectors (which need numpy and '
     'vectormath) and the PNG image (which needs pypng), and everything that '
     'is offered behaves as with all packages: values accepted, coerced and '
     'refused, defaults, JSON, copies, equality, listeners, links, extras, '
     'pickles and documentation. Nor does behaviour depend on optimization '
     '(-O, -OO), on the hash seed, on development mode, on the time zone, '
     'the locale or the working directory.',
     [C, I],
     'subsets of the optional packages x absent or broken x ways to start '
     'Python x types x values x operations',
     'Tests run in one environment, which has every package, without '
     'optimization.',
     ['properties/__init__.py', 'properties/basic.py',
      'properties/base/containers.py', 'properties/link.py'],
     [('names', 'properties/__init__.py'),
      ('booleans', 'properties/basic.py:BOOLEAN_TYPES'),
      ('coercion', 'properties/base/containers.py:CONTAINERS'),
      ('observers', 'properties/link.py:LINK_OBSERVERS')],
     technique='exhaustive enumeration of environments x operations, '
               'compared with the complete environment')

prop('P33', 'Threads that use different instances do not notice each other',
     'Two threads that each work on instances of their own, of the same '
     'classes or of others, get the results that each gets when it runs '
     'alone, wherever the interpreter switches between them: values set, '
     'refused, deleted, reset, validated, compared, saved, loaded and '
     'copied, unions, observed containers, links, uids, singletons, tasks, '
     'classes declared and listeners registered. In particular listeners '
     'that one thread disables, explicitly or by constructing, copying or '
     'loading an instance, stay enabled in the others, errors are reported '
     'to the thread that made them, and nothing is left behind for '
     'later operations in either thread.',
     [I, PR],
     'uses of the library x uses in another thread x places to switch',
     'Tests run in one thread.',
     ['properties/base/base.py', 'properties/handlers.py',
      'properties/base/union.py', 'properties/extras/uid.py'],
     [('disabled listeners', 'properties/handlers.py:listeners_disabled'),
      ('guards', 'properties/base/base.py:HasProperties.validate'),
      ('construction', 'properties/base/base.py:PropertyMetaclass.__call__'),
      ('unions', 'properties/base/union.py:Union._try_prop_method')],
     technique='stateless exploration of all thread schedules with one or '
               'two switches on the real code under a controlled scheduler')
