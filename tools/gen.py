#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os, re
T='transform/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe or ['Transformer.Transform'],hook_needed=None)))

p('C01','Transforming never panics and yields valid JSON or an error',
  'For every byte string given as input, a transformer built from any accepted schema returns either an error or a document that parses as JSON. It never panics, whatever the shape of the input compared with the shape the schema expects (scalars where arrays are expected, nulls, missing parents, nested lists).',
  ['inputs','configurations'],'every input document and every combination of schema features',
  'The tests feed a few dozen inputs whose shapes mostly match their schemas; a mismatch of shape at one particular path is what crashes, and the product of schema features and input shapes is not sampled.',
  [T+'transformer.go',T+'instance.go',T+'utils.go'],
  [('tree building with type checks',T+'transformer.go saveInTree, saveLeaf, saveInSlice'),('base value of arrays',T+'instance.go baseValueJSON')])
p('C02','A transformer has no memory of earlier inputs',
  'The result of transforming a document depends only on the schema and that document: after any sequence of earlier transforms (successful or failed) a transformer gives the same output or error as one just created. In particular defaults and the order of alternative sources stay as the schema states them.',
  ['histories','inputs'],'every sequence of inputs to one transformer',
  'Every test case builds its own transformer and uses it once, so state that leaks from one use to the next is never seen.',
  [T+'instance.go',T+'transform.go'],
  [('defaults are copied before children are added',T+'instance.go objectTransformJSON'),('the last method keeps its list',T+'transform.go transformInstructions.transform')])
p('C03','The output does not depend on map iteration order',
  'For one schema and one input every run gives the same output or fails every time: the order in which sibling fields happen to be processed cannot influence the result. The value one field takes from the input is not changed by the transform of another field.',
  ['schedules','inputs','configurations'],'every iteration order of every map, every schema of the families, every input',
  'Map order is random at run time, so a test passes most of the time even if the result depends on it, and no test compares two orders.',
  [T+'instance.go',T+'transformer.go'],
  [('children are evaluated against an input that siblings do not change',T+'instance.go arrayTransformJSON'),('object building',T+'instance.go objectTransformJSON')])
p('C04','A scalar comes from its transform, else the same path, else its default',
  'A scalar field takes the value its transform finds; if the transform finds none (or there is none) it takes the value at the same path of the input converted to its type; if there is none or it cannot be converted it takes the schema default; otherwise it is left out of the output. False, zero and the empty string are values, null is not.',
  ['inputs','configurations'],'every presence or absence of transform, source value, same-path value and default, for every type and value',
  'The table of sources, types and value kinds has hundreds of cells and the tests sit on a few; falsy values and unconvertible ones are hardly covered.',
  [T+'instance.go'],[('precedence',T+'instance.go transformScalarJSON')])
p('C05','first, last and concatenate combine source paths as documented',
  'With method first (the default) a field takes the value of the first listed path that has one, with last that of the last listed path that has one. With concatenate it takes the strings of all paths that have one, in listed order, with the delimiter between non-empty ones only; combining values of different or non-string types is an error.',
  ['inputs','configurations'],'every list of up to three paths, every presence and every value',
  'Tests fix two or three paths with all present; which of several absent, empty or null sources is skipped is not exercised.',
  [T+'transform.go',T+'utils.go'],[('method loop',T+'transform.go transformInstructions.transform'),('concat',T+'utils.go concat')])
p('C06','Scalar values are converted to the type of the field without change',
  'A scalar copied into a field of another scalar type keeps its value: booleans become 1/0 or true/false texts, number texts become the numbers they denote, numbers become the texts that denote them, positive numbers are true, one-element lists stand for their element, date-times are instants in RFC 3339 or seconds since the epoch. A value read for a field without transform operations that has no counterpart in the type of the field never appears in the output.',
  ['inputs'],'every scalar of each input type and every output type',
  'The conversion tests are one table of constants; signs, leading zeros, boundaries of 64-bit integers and odd spellings are not in it.',
  [T+'utils.go'],[('convert',T+'utils.go convert, convertBoolean, convertNumber, convertString, convertDateTime')])
p('C07','Arrays keep order, and items read their own element',
  'An array field has one item for each element of its source that yields a value, in source order; a source that is not a list stands for a list of one. An item reads values relative to the element it is made from, at every nesting depth, and never from a neighbouring element; an array without items is left out.',
  ['inputs','configurations'],'every list up to the bound, nested lists, missing elements, absolute and relative paths',
  'Tests use lists of one or two well-formed elements; the alignment of nested indexes and gaps inside lists is not examined.',
  [T+'instance.go',T+'utils.go'],[('index substitution',T+'instance.go pathReplace, arrayTransformJSON'),('relative paths',T+'utils.go extractTransformInstructions')])
p('C08','Values are stored at exactly their path of the output tree',
  'Storing a value at a path of an output tree makes that value readable at that path, creates exactly the missing maps and list slots on the way (new slots are null) and changes nothing else, except that a map stored into a list slot that holds a map is merged into it. A path that runs through a value of the wrong kind under a name is an error and a null value stores nothing.',
  ['inputs','histories'],'every tree up to the bound, every path of keys and indexes, sequences of stores',
  'Tests store a handful of paths into nearly empty trees; overlapping stores and filled slots are not compared against a law.',
  [T+'transformer.go'],[('saveInTree',T+'transformer.go saveInTree, saveLeaf, saveInSlice')],['Transformer.Transform'])
p('C09','duration yields exactly the number of seconds or an error',
  'A text "MM:SS" or "HH:MM:SS" of decimal digits becomes hours*3600 + minutes*60 + seconds, exactly; anything else is rejected. No accepted text yields a number other than its sum of seconds, however long its parts are.',
  ['inputs'],'every text up to the bound, including parts beyond the 64-bit range',
  'Tests list a few clock times; overflow and almost well-formed texts are outside them.',
  [T+'operations.go'],[('duration',T+'operations.go duration.transform')])
p('C10','String operations do what their name and arguments say',
  'changeCase, split, replace, toCamelCase, timeParse and removeHTML compute their documented function for every text and every argument, reject values that are no text, and when chained are applied in listed order. Splitting and joining with the same separator gives back the text; splitting an empty text gives an empty list.',
  ['inputs','configurations'],'every text and argument up to the bound, chains of operations',
  'One or two examples per operation; empty arguments, repeated separators, and separators at the ends are not covered.',
  [T+'operations.go'],[('operations',T+'operations.go *.transform'),('chaining',T+'transform.go jsonTransform')])
p('C11','Number, boolean and existence operations are exact or an error',
  'convertToInt64, convertToFloat64 and convertToBool yield exactly the value denoted by the text or number, and an error for anything that denotes none (never a clamped, wrapped or default value for a text). inverse negates booleans and rejects all else; valueExists tells whether a text is empty.',
  ['inputs'],'every text and number up to the bound, including the edges of the 64-bit range',
  'Examples only; range edges, signs and malformed numbers are untested.',
  [T+'operations.go'],[('conversions',T+'operations.go convertTo*')])
p('C12','A wrong transform section is rejected when the transformer is built',
  'Creating a transformer fails if any transform section it would use names an unknown operation or method, misses a required argument, or has an argument that cannot be used (an unknown case, a pattern that does not compile), wherever in the schema it stands. It never panics, and a well-formed section is accepted.',
  ['configurations'],'every operation, argument set, method and position in a schema',
  'Construction errors are tested for some operations at one position; other positions (nested, item, object and array level) are not.',
  [T+'operations.go',T+'transform.go',T+'transformer.go'],[('init',T+'operations.go *.init'),('error propagation',T+'transformer.go walker')],['NewTransformer'])
p('C13','XML input is mapped through its XPath sources only',
  'For XML input a field takes the value its XPath finds, converted to its type, else its default, else it is left out; texts of several matches are joined by a space for text fields and arrays get one item per matching element in document order, items reading relative to their element. No XML document makes a transform panic.',
  ['inputs'],'every document of the families: presence, order, number and content of elements',
  'The XML tests transform a few fixed documents with one shape each.',
  [T+'instance.go',T+'transform.go'],[('xmlTransform',T+'transform.go xmlTransform'),('XML arrays and objects',T+'instance.go arrayTransformXML, objectTransformXML')],['NewXMLTransformer','Transformer.Transform'])
p('C14','Only validated output is returned, and it is what was validated',
  'Transform returns a document only if the schema validator accepted exactly that document; if the validator rejects or fails, an error and no document is returned. Transform without validation returns the same document for every input, and never consults the validator.',
  ['inputs','fault_sequences'],'every input and every answer of the validator, for JSON and XML',
  'Tests use schemas where the validator agrees with the transform; the combinations of answers are not driven.',
  [T+'transformer.go'],[('validation gate',T+'transformer.go jsonTransform, xmlTransform')])
p('C15','Only the transform sections of the chosen identifier have effect',
  'A transformer behaves as if the schema held no transform sections but those under its own identifier: sections of other identifiers, even invalid ones, change nothing. Several transformers built from one schema do not influence each other.',
  ['configurations','inputs','histories'],'every placement of foreign sections, every input',
  'Tests choose one identifier for one schema; no test compares with a schema stripped of the other sections.',
  [T+'utils.go'],[('extractTransformInstructions',T+'utils.go extractTransformInstructions')])
p('C16','max returns the requested field of an item with the largest value',
  'max yields the requested field of the first item whose compared number is the largest of the list, whatever the signs of the numbers, and never that of another item. An empty list yields no value, and an item without a number to compare is an error.',
  ['inputs'],'every list up to the bound and every number',
  'Tests use lists of positive numbers.',
  [T+'operations.go'],[('max',T+'operations.go max.transform')])
p('C17','One transformer can be used by several goroutines at once',
  'Concurrent transforms on one transformer are free of data races and each gives the result it would give alone, under every interleaving.',
  ['schedules','inputs'],'every interleaving of two transforms with bounded preemptions',
  'No test runs two transforms at the same time.',
  [T+'transformer.go',T+'instance.go'],[('no shared mutable state',T+'instance.go, '+T+'transform.go')])

J='jsonschema/'
p('C20','The schema cache loads once per key and never serves a stale or failed entry',
  'Concurrent and repeated loads of one schema run the underlying read at most once at a time, and all callers get the same complete schema. Another file or another choice of oneOf type never gets a schema cached for something else, and a failed load is not remembered as a schema.',
  ['schedules','histories','fault_sequences'],'every interleaving of concurrent loads, every sequence of keys, every failure',
  'Tests load sequentially from a few files.',
  [J+'cache.go'],[('Cache.Load',J+'cache.go')],['Cache.Load'])
p('C21','Flattening merges allOf branches and the chosen oneOf branch',
  'A flattened schema contains its own properties, required names and items, those of all its allOf branches and those of the referenced oneOf branch whose name was asked for, recursively, and nothing of other branches; of properties with one name the schema itself wins, then the first branch. Without flattening the allOf branches are merged only into a schema that has no properties of its own. The result does not depend on map order.',
  ['configurations','schedules'],'every arrangement of allOf/oneOf branches over several files up to the bound, every choice of type and of property names',
  'Tests flatten a fixed set of files, in which each branch brings different properties.',
  [J+'schema.go'],[('merging of branches',J+'schema.go schemaFromFile, mergeProperties'),('declared types',J+'schema.go SchemaTypes')],['SchemaFromFile','SchemaFromFileNoFlatten','SchemaTypes'])
p('C22','References are replaced by what they point to',
  'Dereferencing replaces every reference that does not lead to itself (to another file, to a document of the web, or to a location within the same or another document) by the referred value with all its keywords, at any depth, resolves relative names against the file they stand in, keeps the other members beside a reference, leaves everything else as it was, and fails if the target is missing. No reference object is left in the result.',
  ['configurations'],'every arrangement of acyclic references up to the bound, with any names and any members beside them',
  'Tests dereference a handful of fixed schemas; keywords lost on the way, order of resolution and members beside a reference are hardly compared.',
  [J+'reference.go'],[('resolution of all references of a document',J+'reference.go dereference, findRefs'),('one reference',J+'reference.go resolveRef')],['SchemaFromFile','SchemaFromFileNoFlatten'])
p('C23','Walking a schema visits every instance once, with its path',
  'A walk calls back exactly once for every property and array item definition of a schema, at every depth, parents before children, with the JSON path under which its values lie, and stops with the error of the callback. The walk over raw definitions passes exactly the definition text of that instance.',
  ['configurations','fault_sequences'],'every schema up to the bound, every position at which the callback fails',
  'Tests walk two or three schemas.',
  [J+'walk.go'],[('walk',J+'walk.go walkInstance, walkRaw')],['Walk','WalkRaw'])
p('C24','The type of a field is recognised in every permitted notation',
  'A type given as a name or as a list of names is recognised as the same type, with null in the list marking the field nullable wherever it stands in the list. A missing type, one that is neither a name nor a list, and a list of several types besides null are errors where a type is required, and the notation changes nothing else of the instance.',
  ['configurations'],'every notation of a type, every order of a list of types',
  'Tests cover a few notations.',
  [J+'schema.go'],[('FieldType',J+'schema.go FieldType'),('normalisation',J+'schema.go Instance.UnmarshalJSON')],['FieldType','SchemaFromFile'])
p('C25','A schema validates documents by its own file and what it refers to',
  'A loaded schema accepts exactly the JSON documents that conform to the file it was loaded from, including the rules of definitions, referenced files and branches, however many schemas were loaded before, in which order, for which type and by how many goroutines at once. What is no single JSON document is never accepted, a file that is no schema is an error and is not remembered.',
  ['inputs','configurations','histories','schedules'],'every document of the families, every rule at every place, every sequence of loads, bounded preemptions of two goroutines',
  'Tests validate two documents with one schema.',
  [J+'validator.go',J+'schema.go',J+'cache.go'],[('validator cache',J+'validator.go loadSchema'),('verdict',J+'validator.go validator.Validate')],['NewValidator','Validator.Validate','Schema.Validate'])

G='generate/'
p('C30','Avro timestamps are the milliseconds of the times they are made from',
  'The Avro timestamp of a time is the number of milliseconds between 1970-01-01T00:00:00Z and that time, for every representable time, before and after 1970, the zero time included. An array of times keeps length, order and every value; an array of optional times leaves out only the missing ones, and a missing time is 0.',
  ['inputs'],'every second of the years 1 to 9999 and every nanosecond, every array up to the bound',
  'Tests convert a few recent times.',
  [G+'avro_helpers.go'],[('conversion of times in the generated helpers',G+'avro_helpers.go AvroTime, AvroOptionalTime, AvroTimeSlice, AvroOptionalTimeSlice')],['AvroTime','AvroOptionalTime','AvroTimeSlice','AvroOptionalTimeSlice'])
p('C31','Generated Go structs have exactly the fields of the schema, typed as declared',
  'A generated Go file is valid Go and declares one field per property of the schema object, under its exported name, with a JSON tag of the property name and the Go type of its JSON type (arrays as slices, objects as structs, date-times as times), at every depth; a property that may be of two types other than null is refused. Fields that are not required are left out of JSON when empty, required ones are not. With Pointers exactly the objects and date-times that are optional or may be null are pointers; with NoNestedStructs every object has a declared type of its own.',
  ['configurations'],'every schema up to the bound with any property names, and every combination of options',
  'Tests compare a few golden files; combinations of kinds, nesting, null, required and options are mostly absent.',
  [G+'struct.go',G+'generate.go'],[('a field and its type',G+'struct.go generatedField, extractedField'),('one file per schema',G+'generate.go buildStructFile')],['BuildStructsWithArgs'])
p('C32','Generated files do not depend on map iteration order',
  'Two runs of the generator on one schema with the same options write the same files, whatever the order in which maps are gone through: fields, types, embedded structs and arguments have a fixed order, and which of several entries with the same name remains is fixed too.',
  ['schedules','configurations'],'every iteration order of every map up to the bound, schemas with names that coincide and with several branches',
  'Map order is random at run time, so a test passes most of the time even if the output depends on it.',
  [G+'struct.go',G+'graphql.go'],[('sorted fields',G+'struct.go extractedFields.Sorted'),('sorted GraphQL fields',G+'graphql.go')],['BuildStructsWithArgs'])
p('C33','The Avro schema of a struct has exactly its fields, typed as declared',
  'The Avro schema generated for a Go file is valid JSON: one record whose first fields are the write time and the delete flag, followed by one field per field of the struct with the Avro type of its Go type, nested records and arrays of records at every depth. A field that is optional or may be null is a union with null, others are not. Fields of embedded structs are fields of the record, each once, unless the struct has a field of that name itself.',
  ['configurations'],'every schema up to the bound with any property names, kinds, null and required, embedded structs that share names, options Pointers and NoNestedStructs',
  'Tests compare a few golden files; combinations of embedding and optional or nullable values are mostly absent.',
  [G+'avro.go'],[('a field and its type',G+'avro.go convertToAvroType, writeAvroField'),('fields of embedded structs',G+'avro.go writeEmbeddedStructFields, parseEmbeddedStruct')],['buildAvroSchemaFile','GenerateAvro'])
p('C34','Generated GraphQL types have exactly the fields of the schema, typed as declared',
  'A generated GraphQL file is syntactically valid and declares one field per property with the GraphQL type of its JSON type, at every depth, plus filter and sort arguments and a total for lists. What can be null, date-times and objects without properties are nullable, with Pointers also lists, objects and overridden types that are not required; everything else is non-null. Fields resolved elsewhere appear with their arguments and their overridden type, and every type used in the file is built in, overridden or declared there once.',
  ['configurations'],'every schema up to the bound with any property names, option Pointers on and off',
  'Tests compare a few golden files.',
  [G+'graphql.go'],[('GraphQL fields',G+'graphql.go'),('file',G+'graphql.go buildGraphQLFile')],['BuildStructsWithArgs'])
p('C35','Renaming options change exactly the names they list',
  'StructNameMap, FieldNameMap and GraphQLTypeNameMap replace the listed names of structs, fields and GraphQL types wherever they occur, consistently in declarations and uses, and change nothing else: types, JSON tags and the names of everything not listed stay as they are without the options.',
  ['configurations'],'every renaming of up to two names of the schema to any short name',
  'Tests rename one or two fixed names.',
  [G+'struct.go',G+'graphql.go',G+'generate.go'],[('field names',G+'struct.go'),('type names',G+'graphql.go')],['BuildStructsWithArgs'])
p('C36','Descriptions reach the generated files whatever characters they contain',
  'The description of a property appears unchanged as the description tag or comment of its Go field, as the description of its GraphQL field and as the documentation of its Avro field, and the generated files stay valid Go, GraphQL and JSON, whatever characters it contains. In GraphQL a description that begins with DEPRECATED: becomes the directive with the rest of its first line as the reason, for a list also of its total, and its other lines the description.',
  ['configurations','inputs'],'every description of arbitrary printable characters and newlines up to the bound',
  'Descriptions in the tests contain no quotes, backslashes, backquotes or newlines.',
  [G+'struct.go',G+'graphql.go',G+'avro.go'],[('tags and comments',G+'struct.go generatedField.write'),('descriptions',G+'graphql.go'),('Avro documentation',G+'avro.go avroString')],['BuildStructsWithArgs','buildAvroSchemaFile'])
p('C37','The command generates exactly what its flags ask for',
  'jstransform with any combination of flags writes the files that BuildStructsWithArgs writes with the corresponding options, each flag setting its own option and the others keeping their documented defaults, whether paths are absolute or relative and the output directory is given or the current one. The renaming flags take pairs old=new, separated by commas or repeated, and set exactly these. An invocation that cannot be carried out ends with a code other than 0, and one with missing or malformed arguments writes nothing.',
  ['configurations','inputs'],'every two flags written in any way, every text of pairs up to the bound, the kinds of malformed invocations',
  'The command has no tests.',
  ['main.go'],[('flags to options','main.go main'),('pairs','main.go mapFlags.Set')],['the command jstransform'])
p('C38','Shared schemas and branches become embedded structs and interfaces',
  'For a root schema of shared schemas (allOf) and branches (oneOf) one Go file is generated per shared schema and branch; a branch struct embeds the shared structs, so that decoding JSON into it finds every property of the root schema, the shared schemas and the branch exactly once. With EmbedAllOf the shared schemas of a branch itself are embedded too, without it their properties become fields of the branch. In GraphQL the shared schemas form one interface, and every branch type implements it under its declared name and repeats its fields, and no others than those and its own.',
  ['configurations'],'every root schema with up to two shared schemas and two branches, shared by branches or not, property names that coincide, options EmbedAllOf, InterfaceFiles, renamed structs and types',
  'Tests compare one golden set with one shared schema and two branches.',
  [G+'generate.go',G+'struct.go',G+'graphql.go'],[('one struct per schema, embedding',G+'generate.go BuildStructsWithArgs, '+G+'struct.go newGeneratedGoFile'),('interfaces and implementations',G+'graphql.go buildGraphQLFile')],['BuildStructsWithArgs'])
p('C39','Generated Avro code writes exactly what is in the struct',
  'The Avro code generated for any schema compiles, and WriteAvroCF writes a container file that a standard Avro reader reads back as one record with the values of every field of the struct (those of embedded structs included), its write time and, exactly with WriteAvroDeletedCF, the deleted mark; nil pointers and missing values become null or empty. The bulk writer writes every item once, in order, and an error of the writer is returned. A nil struct is refused, or written by the bulk writer as a deleted record.',
  ['inputs','configurations'],'every kind of property at every depth up to the bound, every option, every value of each field in turn, a writer that fails at any call',
  'Tests compare generated code with golden files and write a few fixed values; most combinations of kinds, null, required, nesting, embedding and renaming were never compiled or run.',
  [G+'avro.go',G+'avro_helpers.go',G+'avro_template.go'],[('fields of the record from those of the struct',G+'avro_helpers.go'),('writers',G+'avro_template.go')],['WriteAvroCF','WriteAvroDeletedCF','BulkAvroWriter'])
p('C40','Generated MessagePack code gives back what it was given',
  'The MessagePack code generated for any schema compiles. What it writes is well-formed MessagePack with the value of every field, no longer than Msgsize, appended to what is there; reading it into a new or used struct gives the same values and leaves what follows, from bytes as from a stream. Unknown fields are skipped, and data that end too early are an error, not a panic.',
  ['inputs','configurations'],'every kind of property at every depth up to the bound, every option, every value of each field in turn, every truncation',
  'Tests compare nothing but the Go files; the generated MessagePack code is never run with optional, nullable, nested or embedded values.',
  [G+'generate.go',G+'struct.go'],[('MessagePack code of the package',G+'generate.go buildMessagePackFile'),('the structs it is made for',G+'struct.go')],['MarshalMsg','UnmarshalMsg','EncodeMsg','DecodeMsg'])
p('C41','Generation reports success only if every file is there in full',
  'When a Go or GraphQL file cannot be created, or not all of it can be written because the disk is full or a size limit is reached after any number of bytes, the generator returns an error. When it returns no error, every file is there with the text it has on a disk with room, also where files of an earlier run are overwritten.',
  ['faults','configurations'],'every number of bytes after which writing fails, every file that cannot be created, options that decide which files there are',
  'No test makes writing fail.',
  [G+'generate.go',G+'graphql.go',G+'struct.go'],[('Go files',G+'generate.go buildStructFile'),('GraphQL file',G+'graphql.go buildGraphQLFile')],['BuildStructsWithArgs'])
P=[x for x in P]
if __name__=='__main__':
    exec(open(os.path.join(os.path.dirname(__file__),'table.py')).read()) if os.path.exists(os.path.join(os.path.dirname(__file__),'table.py')) else None
    base=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    have=set()
    for d,_,fs in os.walk(base+'/harness'):
        for f in fs:
            if f.startswith('zz_'): have|=set(re.findall(r'func Verif_(C\d\d)T?_',open(d+'/'+f).read()))
    with open(base+'/properties.jsonl','w') as o:
        for x in P: o.write(json.dumps(x)+'\n')
    NA=globals().get('NA',{})
    checks=[]
    for x in P:
        i=x['id']
        if i not in have or i in NA: continue
        checks.append(dict(property=i,quick_cmd='./check %s quick'%i,thorough_cmd='./check %s thorough'%i,
          technique='symbolic execution of the Go SSA with an SMT solver (z3), counterexamples replayed natively',
          level='model_checking',
          level_note='Every path of the listed functions within the bounds stated per harness in evidence/%s.json is decided by the solver (bounded model checking); nothing is claimed beyond the bounds. Trusted: the engine and its models of encoding/json, fmt, reflect, regexp, sync, time.Now, os (checked on each run by replaying sampled paths against the compiled code), x/tools SSA, z3.'%i))
    m=dict(version=1,setup_cmd='./setup',checks=checks,
      not_applicable=[dict(property=x['id'],reason=NA.get(x['id'],'No check built yet.')) for x in P if x['id'] not in have or x['id'] in NA],
      notes='All checks run one engine (engine/) over harnesses (harness/) compiled into the current tree through an overlay; no hooks in /repo. See DESIGN.md.')
    json.dump(m,open(base+'/MANIFEST.json','w'),indent=1); open(base+'/MANIFEST.json','a').write('\n')
    for x in P:
        assert len(x['title'])<=80,x['id']
        n=len(re.findall(r'[.!?](?:\s|$)',x['statement'])); assert n<=3,(x['id'],n)
    print(len(P),'properties',len(checks),'checks')
