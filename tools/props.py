NOT_APPLICABLE = []

prop('C01', 'Writing an object and reading it back gives the same object',
     'For every model and every legal value which the document can represent, parsing the serialized document (as text '
     'or as a tree) yields an object equal to the original one. Serializing that object again yields an identical '
     'document. This holds for every combination of field kinds, nesting, search mode and namespace parameters, and '
     'for arbitrary text content.',
     'programs inputs configurations',
     'all model declarations built from the supported field kinds and nestings, all their values, all text content',
     'tests round-trip some dozens of hand written models with one value each; the guarantee is about every '
     'combination of declarations and every value/string',
     'model.py serializers/serializer.py serializers/factories/model.py element/element.py element/native/lxml.py element/native/std.py',
     [('serialization and deserialization of the same declaration use the same names and places', SF + '*.py'),
      ('primitive encoding', PX + 'serializers/serializer.py:encode_primitive'),
      ('native conversion', PX + 'element/native/*.py')],
     REF, TRUST, observe=['to_xml/to_xml_tree then from_xml/from_xml_tree'])

prop('C02', 'Serialization puts every datum at its declared place and nothing else',
     'The document produced for a value contains exactly the elements, attributes and text which the model declaration '
     'prescribes: declared names and namespaces, declaration order of elements, one element per collection item, '
     'nested content inside its own element. No other field can overwrite, drop, duplicate or relocate a datum.',
     'programs inputs configurations',
     'all pairs of supported field kinds in one model, every field kind under every nesting and model parameter set, all '
     'catalogued values',
     'the tests check single field kinds in isolation; the interplay of any two kinds in one model is not sampled',
     'model.py serializers/factories/model.py serializers/factories/primitive.py serializers/factories/mapping.py serializers/factories/wrapper.py serializers/factories/homogeneous.py serializers/factories/heterogeneous.py element/element.py',
     [('field by field serialization', SF + 'model.py:ModelSerializer.serialize'),
      ('element building', PX + 'element/element.py')],
     REF, TRUST, observe=['to_xml'])

prop('C03', 'A document is bound exactly as declared, or rejected',
     'For every document, parsing either returns an object whose every field holds exactly the data found at the '
     'place the declaration names (or the default if there is none) and whose set of explicitly provided fields is '
     'exact, or raises a validation/parsing error. No datum is used for two fields, taken from another place, lost, '
     'or attributed to a neighbour; parsing never fails in another way and always terminates.',
     'programs inputs',
     'all field kinds, all pairs of kinds and all nestings, on every document within one edit (delete, duplicate, move, '
     'rename, re-namespace, insert, change text/attribute/tail/nil) of a document of a legal value',
     'tests parse the documents they were written for; malformed neighbours and the interplay of fields are unsampled',
     'model.py serializers/factories/model.py serializers/factories/primitive.py serializers/factories/homogeneous.py serializers/factories/heterogeneous.py serializers/factories/mapping.py serializers/factories/wrapper.py serializers/factories/union.py serializers/factories/tagged_union.py serializers/factories/raw.py element/element.py',
     [('consumption of element data', PX + 'element/element.py'), ('deserialization', SF + '*.py')],
     REF, TRUST, observe=['from_xml'],
     state=[('consumption state', 'what of an element has been bound so far', PX + 'element/element.py:XmlElement.State')])

prop('C04', 'Search modes decide which sub-elements are bound, for every child sequence',
     'In strict mode only the next sub-element is considered, in ordered mode unknown sub-elements are skipped but '
     'order is respected, in unordered mode any not yet bound sub-element is found whatever the order. This holds for '
     'every field kind and every sequence of sub-elements, for repeated names, and each model applies its own mode to '
     'its own content only.',
     'programs inputs configurations',
     'all pairs of 12 (and triples of 6) field kinds with equal or different element names x 3 modes x every child '
     'sequence over {a,b,(c),z} up to length 4 (3); all 9 mode combinations of a model and its sub-model',
     'tests use a few fixed sequences per mode; the guarantee quantifies over all sequences',
     'element/element.py serializers/factories/model.py serializers/factories/wrapper.py serializers/factories/tagged_union.py',
     [('search functions', PX + 'element/element.py:strict_search, ordered_search, unordered_search')],
     REF, TRUST, observe=['from_xml'],
     state=[('search position', 'index of the next sub-element to be bound', PX + 'element/element.py:XmlElement.State')])

prop('C05', 'Forbidding extras rejects exactly the documents with unbound data',
     'A model which forbids extra data accepts a document if and only if every non-blank text, attribute and tail in '
     'its element is bound by a field; otherwise it raises a validation error listing exactly the unbound data, each '
     'at its location with its value. Models which do not forbid extras never reject a document because of them, and '
     'the setting of a model affects neither its parent nor its sub-models.',
     'programs inputs configurations',
     'all field kinds, nestings and pairs, with extras forbidden at the outer, inner or both levels, on every document '
     'within one edit of a legal one',
     'tests check a handful of documents; exactness for every kind of leftover and field kind is unsampled',
     'serializers/factories/model.py element/element.py',
     [('check of extras', SF + 'model.py:BaseModelSerializer._check_extra'),
      ('unbound data collection', PX + 'element/element.py:XmlElement.get_unbound')],
     REF, TRUST, observe=['from_xml: errors() locations and inputs'])

prop('C06', 'Unions of models pick the first accepting variant and leave no trace of others',
     'A field declared as a union of models holds an instance of the first declared variant which accepts the data; '
     'what rejected variants read stays available to later variants, later fields and the check of extra data. If no '
     'variant accepts the data the document is rejected. Serialization uses the declaration of the variant the value '
     'belongs to.',
     'programs inputs configurations',
     'all pairs of 19 and triples of 7 variant shapes (attributes, text, lists, mappings, wrapped, root, nested unions, '
     'forbidding, raw) x field forms x following fields x modes x tags, on every document within one edit',
     'tests use a few variant pairs and valid documents only',
     'serializers/factories/union.py element/element.py',
     [('snapshot and restore around every variant', SF + 'union.py:ModelSerializer.deserialize')],
     REF, TRUST, observe=['from_xml, to_xml'],
     state=[('snapshot', 'copy of the consumption state of the element', PX + 'element/element.py:create_snapshot')])

prop('C07', 'Discriminated unions are selected by the discriminating attribute alone',
     'An element is bound to a discriminated union variant if and only if its discriminating attribute has one of the '
     'values of that variant and its name is the one of that variant, whatever the rest of the element looks like; '
     'content not fitting the selected variant is an error, not a reason to try another one. Elements with an unknown '
     'or missing discriminator are left unbound. Serialization writes the variant the value belongs to.',
     'programs inputs configurations',
     'discriminator forms x tag forms x field forms x neighbours x search modes, on every document within one edit, every '
     'discriminator substitution and every sequence of up to 3 variant elements',
     'tests use two variants and valid discriminators in one order',
     'serializers/factories/tagged_union.py element/element.py',
     [('variant lookup', SF + 'tagged_union.py:ModelSerializer.deserialize')],
     REF, TRUST, observe=['from_xml, to_xml'])

prop('C08', 'Every element and attribute has the namespace its declaration prescribes',
     'Every element and attribute is read from and written to exactly the namespace which the nearest declaration '
     '(entity, model, inherited or enclosing) assigns to it: a prefix is resolved by the nearest namespace map, '
     'elements without prefix belong to the default namespace of the nearest map (if any), attributes without prefix '
     'belong to no namespace unless ns_attrs is set. The prefixes used in a document are irrelevant.',
     'programs inputs configurations',
     '19 entity forms x model/entity/sub-model namespaces and namespace maps (absent, prefixed, default, shadowing, '
     'empty) x ns_attrs; every legal document with any one name moved to any of 6 namespaces',
     'the tests fix a handful of combinations of ns/nsmap/ns_attrs; precedence and scoping concern all of them',
     'utils.py element/element.py element/native/lxml.py element/native/std.py serializers/factories/model.py serializers/factories/primitive.py fields.py model.py',
     [('qualified names', PX + 'utils.py:QName, merge_nsmaps, select_ns'), ('writing of namespaces', PX + 'element/native/lxml.py')],
     REF, TRUST, observe=['to_xml, from_xml'])

prop('C09', 'Names come from the declaration; other root elements are not parsed',
     'The document name of an entity is the explicit name if one is given, else the serialization alias, else the alias '
     '(given or generated), else (for sub-models) the tag of the model, else the field name; the same name is used for '
     'reading and writing. A model parses a document whose root element has its (possibly inherited) tag and namespace, '
     'and raises ParsingError for every other root element.',
     'programs inputs configurations',
     '24 entity forms x all 32 combinations of explicit name, alias, serialization alias, validation alias and model tag x '
     'populate_by_name x alias generator; every legal document with any one name replaced by any of the candidate names; '
     'all 3-generation tag assignments x 21 root element names',
     'tests cover single naming mechanisms; the precedence between them is a property of all combinations',
     'fields.py model.py serializers/serializer.py serializers/factories/model.py serializers/factories/wrapper.py serializers/factories/primitive.py',
     [('name selection', PX + 'serializers/serializer.py'), ('wrapped field merge', PX + 'fields.py:wrapped')],
     REF, TRUST, observe=['to_xml, from_xml'])

prop('C10', 'Emptiness options remove and restore exactly the empty data',
     'skip_empty removes exactly the entities without content, exclude_none exactly those with a None value, exclude_unset '
     'exactly the fields not explicitly set, exclude/NoXml fields always; nillable entities are written with xsi:nil for '
     'None and read back as None; empty_as_string reads an empty element as an empty string instead of no data. All other '
     'data is unaffected, whatever the nesting and the combination of options.',
     'programs inputs configurations',
     'all field kinds, pairs and nestings x all 8 combinations of skip_empty, exclude_none and exclude_unset x the '
     'skip_empty parameter of the model x values with unset fields; 18 nillable forms x all spellings of xsi:nil and all '
     'documents within one edit; empty_as_string on all kinds and nestings',
     'tests check each option on one or two kinds; the options interact with every kind and each other',
     'model.py serializers/serializer.py serializers/factories/primitive.py serializers/factories/model.py serializers/factories/mapping.py serializers/factories/homogeneous.py serializers/factories/heterogeneous.py serializers/factories/wrapper.py element/element.py',
     [('option propagation', SF + '*.py'), ('nil handling', PX + 'element/element.py:XmlElement.is_nil')],
     REF, TRUST, observe=['to_xml(skip_empty, exclude_none, exclude_unset), from_xml(empty_as_string)'])

prop('C11', 'Both XML backends behave identically',
     'Which XML library backs pydantic_xml (lxml or the standard xml.etree) is unobservable: for the same model, every '
     'document is bound to the same object or rejected with the same errors (apart from source lines), and every value '
     'is written as the same document.',
     'programs inputs configurations',
     'all field kinds and nestings x model parameters x search modes, every document within one edit, unusual document '
     'texts and native trees; outcomes of the two backends are compared digest by digest',
     'the test suite runs with one backend at a time and never compares them; equivalence concerns every document',
     'element/native/lxml.py element/native/std.py element/element.py',
     [('conversion from and to native trees', PX + 'element/native/*.py'), ('backend choice', PX + 'element/native/__init__.py')],
     'bounded exhaustive differential exploration: the same programs and documents on both backends of the real library, '
     'outcomes compared state by state', TRUST, observe=['from_xml, from_xml_tree, to_xml, to_xml_tree'])

prop('C12', 'Every error is located at the field and source line it is about',
     'A validation error raised for a document names, for every wrong datum, exactly the path of fields (aliases where '
     'declared) and collection indexes leading to it, with the value found there; no correct datum is reported. With lxml '
     'the source line of the element concerned is attached to it. This holds at any depth of nesting.',
     'programs inputs configurations',
     'all chains of up to 2 (3) of the nestings sub-model, list, tuple, union, discriminated union, root, wrapped, ... x '
     'fault sets in leaf fields of every kind x aliases x loc_by_alias x unexpected data; documents spread over lines',
     'tests check locations of a few single faults; the paths and lines are compositional over any nesting',
     'model.py serializers/factories/model.py serializers/factories/homogeneous.py serializers/factories/heterogeneous.py serializers/factories/wrapper.py serializers/factories/union.py utils.py errors.py element/native/lxml.py',
     [('error collection', SF + 'model.py'), ('source lines', PX + 'utils.py:set_validation_error_sourceline')],
     'bounded exhaustive fault injection: every subset (bounded) of faults in every nesting chain on the real library, '
     'against the locations computed from the declaration', TRUST, observe=['ValidationError.errors() of from_xml'])

prop('C13', 'Xml models validate, transform and encode exactly as pydantic models do',
     'Data read from a document is validated exactly as if the extracted values had been passed to the pydantic model '
     'the declaration describes: types and constraints, defaults and factories, before/after/wrap validators, model '
     'validators, private attributes, validation context, strictness and other configuration all apply, once each. What is '
     'written is what pydantic serialization (field/model serializers, context) makes of the values.',
     'programs inputs configurations',
     '11+ field forms x type annotations x field hooks x model hooks x field arguments x configuration x hooks of the '
     'sub-model, singly and in pairs, on valid, invalid, absent and empty data, with and without context',
     'tests combine few pydantic features with few xml shapes; fidelity concerns every combination',
     'model.py serializers/factories/model.py serializers/factories/call.py serializers/serializer.py serializers/factories/primitive.py serializers/factories/homogeneous.py serializers/factories/union.py',
     [('wrapping of pydantic core schemas', PX + 'serializers/serializer.py:Serializer.parse_core_schema'),
      ('delegation to pydantic', SF + 'model.py')],
     'bounded exhaustive differential exploration: each program also defines the plain pydantic model, both run on the same '
     'data and hooks are traced', TRUST, observe=['from_xml(context=...), to_xml, calls of user hooks'])

prop('C14', 'Operations depend on their arguments only, never on what happened before',
     'The outcome of defining a model, parsing or serializing is the same after any history of other operations '
     '(including failed ones, mutation of results, subclassing, embedding, rebuilding, copying). Inputs '
     '(documents, trees, values, options) are never modified, and results never share mutable state with defaults, other '
     'results or the input.',
     'programs inputs histories',
     'all sequences of 18 operations up to length 2 in a fresh world each (and continuations), for every field kind and '
     'nesting; every step is compared with its outcome in a fresh world',
     'tests run each operation once in a fresh state; interference needs sequences',
     'model.py serializers/factories/model.py serializers/factories/union.py serializers/serializer.py element/element.py element/native/lxml.py element/native/std.py',
     [('per class serializer', PX + 'model.py:XmlModelMeta'), ('element state', PX + 'element/element.py')],
     'exhaustive enumeration of operation histories up to a length bound on the real library, each outcome compared with '
     'the outcome in a fresh world', TRUST, observe=['results of from_xml/to_xml, inputs after the call'],
     state=[('class state', 'serializer and namespace tables of a model class', PX + 'model.py')])

prop('C15', 'Concurrent use of the same model classes is safe',
     'Parsing, serializing and sub-classing the same model classes, and defining further ones, from several threads '
     'gives every thread the result it would get alone, for every interleaving.',
     'programs schedules',
     'two threads, all interleavings with one preemption at any executed line of the library (two preemptions at any call '
     'boundary), for pairs of 6+ operations on models covering all kinds of serializers',
     'tests are single threaded; schedules are never explored',
     'model.py serializers/serializer.py serializers/factories/model.py serializers/factories/union.py serializers/factories/tagged_union.py element/element.py',
     [('shared serializers', PX + 'model.py:XmlModelMeta'), ('per document state', PX + 'element/element.py:XmlElement.State')],
     'stateless model checking of the real library: controlled scheduler over two threads, all schedules up to a preemption '
     'bound', TRUST, observe=['results of both threads'],
     state=[('serializer tree', 'shared by all threads', PX + 'model.py:__xml_serializer__')])

prop('C16', 'Model parameters and fields are inherited unless overridden, bases stay intact',
     'A derived model has the tag, namespace, namespace map (merged, nearest first), search mode, ns_attrs, skip_empty and '
     'extra setting of its nearest ancestor which sets them, and all inherited fields with their xml meaning, unless it '
     'sets or overrides them. Deriving never changes what the base reads or writes.',
     'programs configurations',
     'all assignments of every parameter along three generations, all pairs of parameters along two, all overriding of '
     'fields by 11+ forms along two (three) generations, mixins; values and documents for each class of the chain',
     'tests cover one inheritance step for some parameters',
     'model.py serializers/factories/model.py utils.py fields.py',
     [('parameter inheritance', PX + 'model.py:BaseXmlModel.__init_subclass__'), ('namespace map merge', PX + 'utils.py:merge_nsmaps')],
     REF, TRUST, observe=['to_xml, from_xml of every class of the chain'])

prop('C17', 'However a declaration is written down, it means the same',
     'Postponed annotations, forward references, local scopes, definition order, generics, create_model, Annotated fields, '
     'type aliases, NewType, mixins, subclassing and explicit rebuilding are only notations: models which declare the same '
     'fields read and write the same documents. Recursive and mutually recursive models work to any depth.',
     'programs inputs',
     '18 notations x all field kinds x model parameters x nestings; 10 recursive shapes x notations x modes x parameters',
     'tests exercise generics and forward references with one or two field kinds each',
     'model.py serializers/serializer.py serializers/factories/model.py serializers/factories/call.py serializers/factories/tuple.py fields.py',
     [('deferred building of serializers', PX + 'model.py:BaseXmlModel.__build_serializer__, model_rebuild'),
      ('generics', PX + 'model.py:GenericXmlModel handling in __init_subclass__')],
     REF, TRUST, observe=['definition, to_xml, from_xml'])

prop('C18', 'Meaningless declarations are rejected at definition, all others accepted',
     'Defining a model succeeds exactly if every field has an xml meaning: collections of collections, attributes of models '
     'or collections, mappings of non-primitives, undeclared namespace prefixes, wrong discriminators, '
     'abstract unions of incompatible kinds and the like raise ModelError (or the documented error) when the model is '
     'defined, never later; every meaningful declaration is accepted.',
     'programs',
     'type expressions up to depth 2 over all type constructors x entities x ordinary/root model x notations; namespace '
     'prefixes x maps; discriminators x variants',
     'tests cover a handful of rejected declarations',
     'model.py fields.py utils.py errors.py serializers/serializer.py serializers/factories/homogeneous.py serializers/factories/heterogeneous.py serializers/factories/mapping.py serializers/factories/union.py serializers/factories/tagged_union.py serializers/factories/raw.py',
     [('schema to serializer', PX + 'serializers/serializer.py:Serializer.parse_core_schema'),
      ('text field uniqueness', SF + 'model.py:ModelSerializer.from_core_schema')],
     'bounded exhaustive exploration of declarations on the real library, against an independent grammar of meaningful '
     'declarations', TRUST, observe=['class definition, to_xml, from_xml'])

prop('C19', 'Custom xml serializers and validators replace exactly what they are declared for',
     'A function declared by xml_field_serializer, xml_field_validator, XmlFieldSerializer, XmlFieldValidator (by any '
     'notation, inherited or not, for one or several fields) handles reading or writing of exactly the declared fields: it '
     'gets the current element, the value or field name, its result goes through pydantic validation, all other fields '
     'behave as without it, and the serializer and the validator are independent of each other.',
     'programs inputs configurations',
     '20 notations x 9 field kinds x serializer/validator/both x places x positions among other fields x modes, documents '
     'within 1 edit',
     'tests have one field of one kind per notation',
     'model.py fields.py serializers/factories/model.py element/element.py',
     [('registration', PX + 'model.py:XmlModelMeta, fields.py:xml_field_serializer, xml_field_validator'),
      ('dispatch', SF + 'model.py:ModelSerializer.serialize, _build_field_serializer')],
     REF, TRUST, observe=['to_xml, from_xml'])

prop('C20', 'The element given to custom functions is a faithful view of the document',
     'The XmlElementReader/Writer passed to custom functions delivers every datum of the native element at most once, in '
     'the search mode asked for: pop removes exactly one datum, peeking removes nothing, paths go through the elements in '
     'progress, snapshots isolate and apply changes, get_unbound lists exactly what is left. Written data are found in the '
     'resulting native element and reading never changes the source element.',
     'histories inputs',
     'all sequences of up to 3 (4) of 47 read operations on all elements of up to 3 (4) children, of up to 4 (5) of 17 write '
     'operations; 3 search modes; both backends',
     'tests call only few operations in one order',
     'element/element.py element/native/lxml.py element/native/std.py',
     [('element state', PX + 'element/element.py:XmlElement'), ('searching', PX + 'element/element.py:searchers')],
     'explicit-state model checking: breadth first search over (model state, real element) pairs, every transition compared',
     TRUST, observe=['results of XmlElementReader/XmlElementWriter methods', 'get_unbound', 'to_native'],
     state=[('element cursor', 'next element to be looked at', PX + 'element/element.py:XmlElement.State')])

prop('C21', 'Raw elements are carried verbatim and owned by the model',
     'A raw element field (lxml or xml.etree element) receives exactly the subtree of the document it is bound to - names, '
     'namespaces, attributes, text, tails, order, depth - and nothing outside of it; serializing it puts exactly that '
     'subtree at the declared place, changing nothing else. Neither the source document, nor the serialized one, nor another '
     'object shares elements with the model: later changes of one are not seen in the others.',
     'programs inputs histories',
     'all raw trees up to depth 3 over own, foreign and namespaced names x 24 places in a model x modes; all mutations after '
     'parsing or serializing',
     'tests have a handful of raw elements without namespaces and never mutate them afterwards',
     'serializers/factories/raw.py element/element.py element/native/lxml.py element/native/std.py model.py',
     [('raw element copying', PX + 'element/native/*.py:from_native, to_native'),
      ('raw serializer', SF + 'raw.py:ElementSerializer')],
     REF, TRUST, observe=['from_xml_tree, to_xml_tree, model fields'])

prop('C22', 'Collections hold every item in order, and every other element stays untouched',
     'A list, set, frozen set, deque, tuple of any length or tuple of fixed length of any kind of item is written as one '
     'element per item in order and is read from exactly the elements of the item name, in document order; damaged items are '
     'rejected rather than dropped, a fixed tuple takes exactly its number of items, other elements around or between the '
     'items are bound or skipped as the search mode says, and an absent collection is its default.',
     'programs inputs',
     '19 item kinds x 4 containers and fixed tuples of 1-3 items x 7 places x 3 modes; all item sequences up to length 3, all '
     'sequences of item/damaged/foreign elements up to length 3 (4)',
     'tests use lists of two or three good items',
     'serializers/factories/homogeneous.py serializers/factories/heterogeneous.py serializers/factories/primitive.py serializers/factories/model.py element/element.py',
     [('homogeneous collections', SF + 'homogeneous.py'), ('heterogeneous collections', SF + 'heterogeneous.py')],
     REF, TRUST, observe=['to_xml', 'from_xml'])

prop('C23', 'Wrapped entities share and traverse their paths consistently',
     'A wrapped entity is written below exactly its path, elements common to several wrapped fields being written once and '
     'shared, and is read from that path whatever the other fields bind below the same elements; a path, nested wrapped '
     'entities and explicit nested models are different notations of the same document; absent data write no path elements '
     'when they are skipped.',
     'programs inputs configurations',
     'three fields x 7 paths each x 8 inner kinds x modes, all presence combinations, split/merged/regrouped wrapper elements '
     'and edits; all 94 kinds in every notation; namespaced paths',
     'tests have two wrapped fields with fixed paths',
     'serializers/factories/wrapper.py fields.py element/element.py serializers/factories/model.py',
     [('wrapper', SF + 'wrapper.py'), ('path search', PX + 'element/element.py:find_sub_element, find_element_or_create')],
     REF, TRUST, observe=['to_xml', 'from_xml'])

prop('C24', 'Computed fields are written like ordinary fields and never read',
     'A computed field of any kind (by decorator, property, cached property, inherited, overriding or by explicit return type) '
     'is written exactly as an ordinary last field of the same entity and value would be, reflecting the current state of the '
     'object; reading a document behaves as if the computed field was not declared.',
     'programs inputs histories',
     '105 kinds x 4 places x 8 forms of declaration x 4 parameter sets x serialization options; documents within 1 edit; '
     'histories of mutations',
     'tests have one computed element and one attribute',
     'fields.py model.py serializers/factories/model.py serializers/serializer.py',
     [('declaration', PX + 'fields.py:computed_attr, computed_element, computed_entity'),
      ('serialization', SF + 'model.py:ModelSerializer.serialize')],
     'bounded exhaustive exploration of declarations, values and histories on the real library, differential: computed '
     'against ordinary field', TRUST, observe=['to_xml', 'from_xml'])

prop('C25', 'Static typing gives the same verdicts as pydantic, for all field functions',
     'Under the mypy plugin of the library every statement about an xml model - construction, assignment, access, inheritance, '
     'defaults, aliases, frozen and strict fields, any plugin option - gets the same verdict as the same statement about the '
     'plain pydantic model under the pydantic plugin, for every field function and every way of importing it; the public api '
     'is typed as documented.',
     'programs configurations',
     '16 field forms x 24 argument sets x import styles x model configurations x inheritance x 13 uses x 6 plugin '
     'configurations',
     'the tests check one module with one plugin configuration',
     'mypy.py fields.py model.py __init__.py element/element.py',
     [('field collection', PX + 'mypy.py:PydanticXmlModelTransformer'), ('plugin', PX + 'mypy.py:PydanticXmlPlugin')],
     'bounded exhaustive exploration of declarations and statements with the real mypy plugin, differential against the '
     'pydantic plugin', TRUST, observe=['mypy diagnostics'])

prop('C26', 'Every primitive is written and read as pydantic would, wherever it stands',
     'A primitive value of any supported type is written as the text of its json encoding by pydantic (None as empty text '
     'or nil, booleans in lower case) and the same text is read back to an equal value, identically in attributes, text, '
     'elements, collections, mappings, unions, wrapped entities, root models and computed fields, honouring '
     'the model configuration. Text which pydantic would not accept for the type is rejected.',
     'programs inputs configurations',
     '47 primitive types x 22 places in a document x edge values and edge texts, x 10 configurations',
     'tests check a few types as elements or attributes only',
     'serializers/serializer.py serializers/factories/primitive.py serializers/factories/mapping.py serializers/factories/typed_mapping.py serializers/factories/homogeneous.py serializers/factories/heterogeneous.py serializers/factories/union.py',
     [('primitive encoding', PX + 'serializers/serializer.py:encode_primitive')],
     'bounded exhaustive exploration of types x places x values on the real library, against the json encoding and '
     'validation of pydantic itself', TRUST, observe=['to_xml, from_xml'])

prop('C27', 'The result depends on the information of a document, not on its spelling',
     'Two spellings of the same document - other prefixes or default namespaces, redundant declarations, attribute order, '
     'CDATA sections, character references, entities, comments, processing instructions, layout, encodings - are read to the '
     'same object by every model; every way of writing (encoding, declaration, pretty printing, standalone and other '
     'options of the backend) yields a spelling of the same document.',
     'inputs configurations',
     'all field kinds of the catalogue (105) x parameters and pairs of kinds x all spelling changes singly and in combination, both backends; all '
     'writing options',
     'tests parse one spelling of a document each',
     'element/native/lxml.py element/native/std.py element/element.py model.py utils.py',
     [('native conversion', PX + 'element/native/*.py'), ('namespace handling', PX + 'utils.py, element/element.py')],
     'bounded exhaustive exploration of spellings on the real library, every spelling against the canonical one', TRUST,
     observe=['from_xml', 'to_xml'])
