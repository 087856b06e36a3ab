#!/usr/bin/env python3
"""Writes DESIGN.md from the prose below, properties.jsonl, the comments of the harnesses, known_findings.json and
tools/detect.json (written by seeds.py detect)."""
import glob, json, os, re
V='/verif/'
HOW={
'C01':('Input texts and value trees are symbolic; every path of newInstance, Transform and json.Marshal is followed. An unrecovered panic of the code under test is a violation in itself; the output must be parsed by the engine\'s strict JSON parser.','shape mismatches are products of schema feature and input shape; the solver covers all of them at once.'),
'C02':('Two transformers are made from one schema text; one gets a symbolic history first. Output and error must be equal. For outputs known in advance the expected text is computed by the harness, so process-wide state is seen too.','a test makes one transformer per case.'),
'C03':('Every `range` over a map of up to three entries is a choice of the explorer (all orders); the result must equal that of the run in insertion order.','Go randomises iteration, so a test sees one order per run and cannot name the failing one.'),
'C04':('A reference (zz_ref.go, 60 lines: transform value, then same-path value, then default, then absent) is evaluated on the symbolic sources and compared with the real output text.','absent/null/empty/unconvertible for each source times type times default is a product no table samples.'),
'C05':('Reference for first/last/concatenate over symbolic sources (zz_ref.go), compared with the output.','interactions of skipped, null and empty sources with delimiters.'),
'C06':('Per type pair a hand-written relation between the symbolic digits/characters of the input and the output text (integers as 64-bit vectors, decimals digit by digit). strconv, time.Parse/Format are executed symbolically from their SSA, not modelled.','boundaries, signs, leading zeros, odd spellings.'),
'C07':('Arrays of symbolic lengths and elements; the expected list is built by the harness from the same variables. Distinct symbolic letters make a neighbour\'s value visible.','nesting depth times relative/absolute path times missing elements.'),
'C08':('saveInTree is called on an arbitrary tree and path; a reference store on an independent representation gives the expected tree (one step from an arbitrary state, so any history of stores is covered).','tests store into trees that match the path.'),
'C09':('Digits are symbolic; the number of seconds is an arithmetic term, wrong spellings must be errors.','overflow and odd spellings.'),
'C10':('Each operation has a short specification over symbolic bytes (case mapping by character class, split/replace by direct search, camel case by a two-state machine, HTML by construction of the input).','short rare strings: empty, only separators, adjacent separators.'),
'C11':('Arithmetic specifications of the conversions over symbolic digits and machine integers.','ranges and kinds of values between operations.'),
'C12':('Symbolic names are put at every place of a schema; acceptance must equal membership in the documented set.','every near-miss of every name.'),
'C13':('XML documents are built from symbolic parts, so the expected JSON is known; encoding/xml, the XPath package and the transformer are executed from their SSA.','combinations of repeated, missing and attribute-only elements.'),
'C14':('The validator is replaced by a model which answers arbitrarily (accept/reject/error); Transform must give output exactly when the answer was "valid" and the document is JSON.','a fault in the validator and its combination with every input.'),
'C15':('Relational: the schema with a foreign section and the one without it must give the same output or error on the same symbolic input, and both must be accepted or not.','every place and name.'),
'C16':('The maximum is stated as: some item has the returned value and no item compares larger, over symbolic numbers.','ties, negative numbers, items which cannot be compared.'),
'C17':('Goroutines run under a scheduler whose switches are choices (bounded preemptions); happens-before vector clocks flag unordered conflicting accesses; each result must equal the result alone.','the race detector sees one schedule.'),
'C20':('The same scheduler over Cache.Load with mutexes, wait groups and sync.Map as switch points; single build, same value, no sticky errors, key separation by symbolic keys.','interleavings.'),
'C21':('Schema files of symbolic arrangement are written to the engine\'s file system; the expected merge is computed from the arrangement.','graphs of branches times type times flattening.'),
'C22':('References of each kind at each place; the harness resolves them independently (own JSON walk) and compares the dereferenced documents as JSON values.','places times kinds times siblings.'),
'C23':('Random-shape symbolic trees; expected visit list computed directly from the tree.','shapes, orders and failing callbacks at any call.'),
'C24':('Symbolic texts after each beginning of an instance; accepted exactly if it parses and the type is a name or a list, the list is then that list.','malformed texts.'),
'C25':('gojsonschema is executed from its SSA on symbolic documents; acceptance must equal the rule evaluated by the harness.','where the rule stands times document.'),
'C30':('Seconds and nanoseconds are symbolic 64-bit integers; the timestamp must be 1000*s + floor(ns/1e6).','range and rounding.'),
'C31':('The generated file is parsed by go/parser (executed symbolically with symbolic names inside), then compared field by field with a reference computed from the schema description.','products of kind, null, required, options, depth.'),
'C32':('The generator runs twice in the engine, once with insertion order of maps and once with orders chosen by the explorer; the files must be equal byte for byte.','map order.'),
'C33':('The Avro schema is parsed as JSON and compared with a reference computed from the schema description.','as C31, plus embedding.'),
'C34':('A small GraphQL parser in the harness reads the file; types and fields are compared with a reference; every used type must be declared.','as C31.'),
'C35':('The generator runs with and without renaming; the parsed files must be equal after applying the map to names.','which names coincide with what.'),
'C36':('Descriptions have symbolic characters; the files are parsed and the text read back must be the description.','characters.'),
'C37':('main() itself is executed with symbolic choices of os.Args; the files must equal those of BuildStructsWithArgs with the options the flags stand for. os.Exit is observed, not executed.','the command has no tests.'),
'C38':('The Go files are parsed and embedding is resolved by the rules of encoding/json (depth, ambiguity); GraphQL types are compared as in C34.','arrangements of shared schemas and branches.'),
'C39':('A native stage runs the real generators (including gogen-avro) for a list of schemas, the generated packages are then compiled into SSA and executed symbolically: the harness fills a struct with symbolic values, calls the generated writers and decodes the container with an own Avro reader.','generated code is never run with data by the tests.'),
'C40':('As C39, with the MessagePack code; own decoder for what is written; reading back, streams cut anywhere, unknown fields.','as C39.'),
'C41':('The generator runs once with room for everything, then again with a symbolic limit on the size of files after which writing fails, over what the first run left or in an empty directory, or with a directory where one of the files should be; an error is wanted exactly where a file comes out different. Natively the limit is RLIMIT_FSIZE, in the engine that of the modelled file system.','no test makes writing fail; the Avro and MessagePack files are written by libraries.'),
}
HEAD=open(V+'tools/design_head.md').read(); TAIL=open(V+'tools/design_tail.md').read()
har={}
for f in sorted(glob.glob(V+'harness/*/zz_c*.go')):
    for m in re.finditer(r'((?:^//.*\n)+)func (Verif_(C\d+)(T?)_(\w+))',open(f).read(),re.M):
        c=' '.join(l[2:].strip() for l in m.group(1).splitlines())
        c=re.sub(r'^Verif_\w+:? (checks )?','',c)
        har.setdefault(m.group(3),[]).append((m.group(5)+(' (thorough only)' if m.group(4) else ''),c))
seeds=json.load(open(V+'tools/detect.json')) if os.path.exists(V+'tools/detect.json') else {}
out=[HEAD]
props=[json.loads(l) for l in open(V+'properties.jsonl')]
kf=json.load(open(V+'known_findings.json'))
for p in props:
    i=p['id']; how=HOW.get(i,('',''))
    out.append(f"### {i} {p['title']}\n\n{how[0]} *Beyond the tests:* {how[1]}\n")
    for n,c in har.get(i,[]): out.append(f"- `{n}`: {c}")
    own=[s for s in sorted(seeds) if seeds[s]['property']==i]
    if own: out.append('\nPlanted: '+', '.join(f"{s} ({'caught' if seeds[s]['caught'] else 'missed'}): {seeds[s]['needs']}" for s in own)+'.')
    kn=[k for k in kf if k['property']==i]
    for k in kn:
        if k['status']=='known': out.append(f"\nKnown finding `{k['finding']}`: {k['what']}")
    fx=[k['what'].replace('fixed: property=%s '%i,'') for k in kn if k['status']=='fixed']
    if fx: out.append('\nRepaired: '+'; '.join(fx)+'.')
    out.append('')
out.append(TAIL)
if seeds:
    out.append('\n## Planted bugs and the checks that catch them\n\n| bug | property | needs | quick check |\n|---|---|---|---|')
    for s in sorted(seeds):
        d=seeds[s]; out.append(f"| {s} | {d['property']} | {d['needs']} | {'caught' if d['caught'] else 'missed'} |")
open(V+'DESIGN.md','w').write('\n'.join(out)+'\n')
